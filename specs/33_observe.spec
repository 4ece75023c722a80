// The keyper's view of the chain: applying events, lookups, dropping history (K11).
define ordH(s) = forall i: int, j: int :: 0 <= i && i <= j && j < len(s) ==> s[i].Height <= s[j].Height
// r is exactly the part of s from height h on
define keptFrom(r, s, h) = len(r) <= len(s) && (forall j: int :: 0 <= j && j < len(r) ==> r[j] == s[len(s) - len(r) + j] && s[len(s) - len(r) + j].Height >= h) && (forall j: int :: 0 <= j && j < len(s) - len(r) ==> s[j].Height < h)
fn (*observe.Eon).GetPolyCommitments(e, h) returns (r) props K11 use nopanic
  requires e != nil && ordH(e.Commitments)
  modifies
  ensures [exactly the events from the height on] keptFrom(r, e.Commitments, h)
fn (*observe.Eon).GetPolyEvals(e, h) returns (r) props K11 use nopanic
  requires e != nil && ordH(e.PolyEvals)
  modifies
  ensures [exactly the events from the height on] keptFrom(r, e.PolyEvals, h)
fn (*observe.Eon).GetAccusations(e, h) returns (r) props K11 use nopanic
  requires e != nil && ordH(e.Accusations)
  modifies
  ensures [exactly the events from the height on] keptFrom(r, e.Accusations, h)
fn (*observe.Eon).GetApologies(e, h) returns (r) props K11 use nopanic
  requires e != nil && ordH(e.Apologies)
  modifies
  ensures [exactly the events from the height on] keptFrom(r, e.Apologies, h)
fn (*observe.Eon).GetEpochSecretKeyShares(e, h) returns (r) props K11 use nopanic
  requires e != nil && ordH(e.EpochSecretKeyShares)
  modifies
  ensures [exactly the events from the height on] keptFrom(r, e.EpochSecretKeyShares, h)

define ordEon(e) = ordH(e.Commitments) && ordH(e.PolyEvals) && ordH(e.Accusations) && ordH(e.Apologies) && ordH(e.EpochSecretKeyShares)
define keptEon(r, e, h) = r.Eon == e.Eon && r.StartHeight == e.StartHeight && r.StartEvent == e.StartEvent && keptFrom(r.Commitments, e.Commitments, h) && keptFrom(r.PolyEvals, e.PolyEvals, h) && keptFrom(r.Accusations, e.Accusations, h) && keptFrom(r.Apologies, e.Apologies, h) && keptFrom(r.EpochSecretKeyShares, e.EpochSecretKeyShares, h)
fn (*observe.Eon).ApplyFilter(e, h) returns (r) props K11 use nopanic
  requires e != nil && ordEon(e)
  modifies
  ensures [exactly the events from the height on] r != nil && fresh(r) && keptEon(r, e, h)
  ensures [own lists] (r.Commitments != nil ==> fresh(r.Commitments)) && (r.PolyEvals != nil ==> fresh(r.PolyEvals)) && (r.Accusations != nil ==> fresh(r.Accusations)) && (r.Apologies != nil ==> fresh(r.Apologies)) && (r.EpochSecretKeyShares != nil ==> fresh(r.EpochSecretKeyShares))

fn (*observe.Shutter).filterSyncHeight(sh) props K11 use nopanic
  requires sh != nil && (forall i: int :: 0 <= i && i < len(sh.Eons) ==> ordEon(sh.Eons[i]))
  modifies sh.Eons
  loopinv ($r: []observe.Eon, $n: int) len($r) == len(sh.Eons) && fresh($r) && (forall i: int :: 0 <= i && i < $n ==> keptEon($r[i], sh.Eons[i], sh.Filter.SyncHeight))
  ensures [every eon stays, its events from the height on] len(sh.Eons) == old(len(sh.Eons)) && (forall i: int :: 0 <= i && i < len(sh.Eons) ==> keptEon(sh.Eons[i], old(sh.Eons[i]), sh.Filter.SyncHeight))
  ensures [own list] fresh(sh.Eons)

fn (*observe.Shutter).filterBatchIndex(sh) props K11 use nopanic
  requires sh != nil
  modifies sh.Batches
  loopinv ($m: map[uint64]*observe.BatchData) $m != nil && fresh($m)
  loopinv forall b: uint64 :: visited[b] ==> b in sh.Batches
  loopinv ($m: map[uint64]*observe.BatchData) forall b: uint64 :: (b in $m <==> visited[b] && b >= sh.Filter.BatchIndex) && (b in $m ==> $m[b] == sh.Batches[b])
  ensures [exactly the batches from the index on] sh.Batches != nil && fresh(sh.Batches) && forall b: uint64 :: (b in sh.Batches <==> old(b in sh.Batches) && b >= sh.Filter.BatchIndex) && (b in sh.Batches ==> sh.Batches[b] == old(sh.Batches[b]))

fn (*observe.Shutter).ApplyFilter(sh, f) returns (r) props K11 nopanic
  requires sh != nil && (forall i: int :: 0 <= i && i < len(sh.Eons) ==> ordEon(sh.Eons[i]))
  modifies
  ensures [nothing new to drop] f.SyncHeight <= sh.Filter.SyncHeight && f.BatchIndex <= sh.Filter.BatchIndex ==> r == sh
  ensures [everything else stays] r != nil && r.CurrentBlock == sh.CurrentBlock && r.LastCommittedHeight == sh.LastCommittedHeight && r.NodeStatus == sh.NodeStatus && r.KeyperEncryptionKeys == sh.KeyperEncryptionKeys && r.BatchConfigs == sh.BatchConfigs
  ensures [filter recorded] r == sh || r.Filter == f
  ensures [events from the height on] r != sh ==> len(r.Eons) == len(sh.Eons) && (forall i: int :: 0 <= i && i < len(r.Eons) ==> keptEon(r.Eons[i], sh.Eons[i], f.SyncHeight))
  ensures [batches from the index on] r != sh ==> forall b: uint64 :: (b in r.Batches <==> b in sh.Batches && b >= f.BatchIndex) && (b in r.Batches ==> r.Batches[b] == sh.Batches[b])

define ordEons(sh) = forall i: int, j: int :: 0 <= i && i < j && j < len(sh.Eons) ==> sh.Eons[i].Eon < sh.Eons[j].Eon
define eonAt(sh, n, i) = 0 <= i && i < len(sh.Eons) && sh.Eons[i].Eon == n
define hasEon(sh, n) = exists i: int :: eonAt(sh, n, i)
fn (*observe.Shutter).searchEon(sh, n) returns (r) props K11 nopanic
  requires sh != nil && ordEons(sh)
  modifies
  ensures [first eon not below] 0 <= r && r <= len(sh.Eons) && (forall i: int :: 0 <= i && i < r ==> sh.Eons[i].Eon < n) && (forall i: int :: r <= i && i < len(sh.Eons) ==> sh.Eons[i].Eon >= n)
fn (*observe.Shutter).FindEon(sh, n) returns (e, err) props K11 nopanic
  requires sh != nil && ordEons(sh)
  modifies
  ensures [found iff known] (err == nil) <==> hasEon(sh, n)
  ensures [the eon with this number] err == nil ==> exists i: int :: eonAt(sh, n, i) && *e == sh.Eons[i]
fn (*observe.Shutter).FindEonByBatchIndex(sh, b) returns (e, err) props K11 use nopanic
  requires sh != nil
  modifies
  loopinv ($i: int) $i < len(sh.Eons) && forall j: int :: $i < j && j < len(sh.Eons) ==> sh.Eons[j].StartEvent.BatchIndex > b
  ensures [found iff one started] (err == nil) <==> exists i: int :: 0 <= i && i < len(sh.Eons) && sh.Eons[i].StartEvent.BatchIndex <= b
  ensures [the last one started] err == nil ==> e != nil && exists i: int {sh.Eons[i]} :: 0 <= i && i < len(sh.Eons) && *e == sh.Eons[i] && sh.Eons[i].StartEvent.BatchIndex <= b && forall j: int :: i < j && j < len(sh.Eons) ==> sh.Eons[j].StartEvent.BatchIndex > b

// applying one event adds exactly that event and nothing else
fn (*observe.Shutter).applyCheckIn(sh, e) returns (err) props K11 nopanic
  requires sh != nil && sh.KeyperEncryptionKeys != nil
  modifies mapof(sh.KeyperEncryptionKeys)
  ensures [recorded] err == nil && e.Sender in sh.KeyperEncryptionKeys && sh.KeyperEncryptionKeys[e.Sender] == e.EncryptionPublicKey
  ensures [nothing else] forall a: common.Address :: a != e.Sender ==> (a in sh.KeyperEncryptionKeys <==> old(a in sh.KeyperEncryptionKeys)) && (a in sh.KeyperEncryptionKeys ==> sh.KeyperEncryptionKeys[a] == old(sh.KeyperEncryptionKeys[a]))
fn (*observe.Shutter).applyBatchConfig(sh, e) returns (err) props K11 nopanic
  requires sh != nil
  modifies sh.BatchConfigs, elems(sh.BatchConfigs)
  ensures [appended] err == nil && len(sh.BatchConfigs) == old(len(sh.BatchConfigs)) + 1 && sh.BatchConfigs[len(sh.BatchConfigs) - 1] == e
  ensures [nothing else] forall i: int :: 0 <= i && i < old(len(sh.BatchConfigs)) ==> sh.BatchConfigs[i] == old(sh.BatchConfigs[i])
fn (*observe.Shutter).applyEonStarted(sh, e) returns (err) props K11 nopanic
  requires sh != nil && ordEons(sh)
  modifies sh.Eons, elems(sh.Eons)
  ensures [eons increase] (err == nil) <==> (old(len(sh.Eons)) == 0 || old(sh.Eons[len(sh.Eons) - 1]).Eon < e.Eon)
  ensures [appended] err == nil ==> len(sh.Eons) == old(len(sh.Eons)) + 1 && sh.Eons[len(sh.Eons) - 1].Eon == e.Eon && sh.Eons[len(sh.Eons) - 1].StartHeight == e.Height && sh.Eons[len(sh.Eons) - 1].StartEvent == e
  ensures [nothing else] (err != nil ==> len(sh.Eons) == old(len(sh.Eons))) && forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> sh.Eons[i] == old(sh.Eons[i])
  ensures [in order] ordEons(sh)

fn (*observe.Shutter).getBatchData(sh, b) returns (r) props K11 own nopanic
  requires sh != nil && sh.Batches != nil
  modifies mapof(sh.Batches)
  ensures [the entry] r == sh.Batches[b] && b in sh.Batches
  ensures [kept or new] (old(b in sh.Batches) ==> r == old(sh.Batches[b])) && (!old(b in sh.Batches) ==> r != nil && fresh(r) && r.BatchIndex == b && len(r.DecryptionSignatures) == 0)
  ensures [others stay] forall c: uint64 :: c != b ==> (c in sh.Batches <==> old(c in sh.Batches)) && sh.Batches[c] == old(sh.Batches[c])
// every batch has its own record and its own list
define ownBatches(sh) = (forall b: uint64 :: b in sh.Batches ==> sh.Batches[b] != nil && ref(sh.Batches[b]) < allocated && ref(sh.Batches[b].DecryptionSignatures) < allocated && (sh.Batches[b].DecryptionSignatures == nil ==> len(sh.Batches[b].DecryptionSignatures) == 0)) && (forall b: uint64, c: uint64 :: b in sh.Batches && c in sh.Batches && b != c ==> sh.Batches[b] != sh.Batches[c] && (sh.Batches[b].DecryptionSignatures == nil || ref(sh.Batches[b].DecryptionSignatures) != ref(sh.Batches[c].DecryptionSignatures)))
fn (*observe.Shutter).applyDecryptionSignature(sh, e) returns (err) props K11 nopanic
  requires sh != nil && sh.Batches != nil && ownBatches(sh)
  ensures [appended] err == nil && e.BatchIndex in sh.Batches && len(sh.Batches[e.BatchIndex].DecryptionSignatures) == old(ite(e.BatchIndex in sh.Batches, len(sh.Batches[e.BatchIndex].DecryptionSignatures), 0)) + 1 && sh.Batches[e.BatchIndex].DecryptionSignatures[len(sh.Batches[e.BatchIndex].DecryptionSignatures) - 1] == e
  ensures [earlier ones stay] forall b: uint64 :: old(b in sh.Batches) ==> b in sh.Batches && sh.Batches[b] == old(sh.Batches[b]) && forall i: int :: 0 <= i && i < old(len(sh.Batches[b].DecryptionSignatures)) ==> sh.Batches[b].DecryptionSignatures[i] == old(sh.Batches[b].DecryptionSignatures[i])
  ensures [others stay] forall b: uint64 :: b != e.BatchIndex ==> (b in sh.Batches <==> old(b in sh.Batches)) && (b in sh.Batches ==> len(sh.Batches[b].DecryptionSignatures) == old(len(sh.Batches[b].DecryptionSignatures)))
  ensures [own lists] ownBatches(sh)

define ownCommitments(sh) = forall i: int, j: int :: 0 <= i && i < j && j < len(sh.Eons) ==> sh.Eons[i].Commitments == nil || ref(sh.Eons[i].Commitments) != ref(sh.Eons[j].Commitments)
fn (*observe.Shutter).applyPolyCommitment(sh, e) returns (err) props K11 nopanic
  requires sh != nil && ordEons(sh) && ownCommitments(sh)
  ensures [accepted iff the eon is known] (err == nil) <==> old(hasEon(sh, e.Eon))
  ensures [appended] forall i: int :: old(eonAt(sh, e.Eon, i)) ==> len(sh.Eons[i].Commitments) == old(len(sh.Eons[i].Commitments)) + 1 && sh.Eons[i].Commitments[len(sh.Eons[i].Commitments) - 1] == e
  ensures [earlier ones stay] forall i: int, k: int :: 0 <= i && i < len(sh.Eons) && 0 <= k && k < old(len(sh.Eons[i].Commitments)) ==> sh.Eons[i].Commitments[k] == old(sh.Eons[i].Commitments[k])
  ensures [other eons stay] len(sh.Eons) == old(len(sh.Eons)) && forall i: int :: 0 <= i && i < len(sh.Eons) && !old(eonAt(sh, e.Eon, i)) ==> sh.Eons[i] == old(sh.Eons[i])
  ensures [everything else stays] *sh == old(*sh) && forall i: int :: 0 <= i && i < len(sh.Eons) ==> sh.Eons[i].Eon == old(sh.Eons[i].Eon) && sh.Eons[i].StartHeight == old(sh.Eons[i].StartHeight) && sh.Eons[i].StartEvent == old(sh.Eons[i].StartEvent) && sh.Eons[i].PolyEvals == old(sh.Eons[i].PolyEvals) && sh.Eons[i].Accusations == old(sh.Eons[i].Accusations) && sh.Eons[i].Apologies == old(sh.Eons[i].Apologies) && sh.Eons[i].EpochSecretKeyShares == old(sh.Eons[i].EpochSecretKeyShares)
  ensures [own lists] ownCommitments(sh)

define ownPolyEvals(sh) = forall i: int, j: int :: 0 <= i && i < j && j < len(sh.Eons) ==> sh.Eons[i].PolyEvals == nil || ref(sh.Eons[i].PolyEvals) != ref(sh.Eons[j].PolyEvals)
fn (*observe.Shutter).applyPolyEval(sh, e) returns (err) props K11 nopanic
  requires sh != nil && ordEons(sh) && ownPolyEvals(sh)
  ensures [accepted iff the eon is known] (err == nil) <==> old(hasEon(sh, e.Eon))
  ensures [appended] forall i: int :: old(eonAt(sh, e.Eon, i)) ==> len(sh.Eons[i].PolyEvals) == old(len(sh.Eons[i].PolyEvals)) + 1 && sh.Eons[i].PolyEvals[len(sh.Eons[i].PolyEvals) - 1] == e
  ensures [earlier ones stay] forall i: int, k: int :: 0 <= i && i < len(sh.Eons) && 0 <= k && k < old(len(sh.Eons[i].PolyEvals)) ==> sh.Eons[i].PolyEvals[k] == old(sh.Eons[i].PolyEvals[k])
  ensures [other eons stay] len(sh.Eons) == old(len(sh.Eons)) && forall i: int :: 0 <= i && i < len(sh.Eons) && !old(eonAt(sh, e.Eon, i)) ==> sh.Eons[i] == old(sh.Eons[i])
  ensures [everything else stays] *sh == old(*sh) && forall i: int :: 0 <= i && i < len(sh.Eons) ==> sh.Eons[i].Eon == old(sh.Eons[i].Eon) && sh.Eons[i].StartHeight == old(sh.Eons[i].StartHeight) && sh.Eons[i].StartEvent == old(sh.Eons[i].StartEvent) && sh.Eons[i].Commitments == old(sh.Eons[i].Commitments) && sh.Eons[i].Accusations == old(sh.Eons[i].Accusations) && sh.Eons[i].Apologies == old(sh.Eons[i].Apologies) && sh.Eons[i].EpochSecretKeyShares == old(sh.Eons[i].EpochSecretKeyShares)
  ensures [own lists] ownPolyEvals(sh)

define ownAccusations(sh) = forall i: int, j: int :: 0 <= i && i < j && j < len(sh.Eons) ==> sh.Eons[i].Accusations == nil || ref(sh.Eons[i].Accusations) != ref(sh.Eons[j].Accusations)
fn (*observe.Shutter).applyAccusation(sh, e) returns (err) props K11 nopanic
  requires sh != nil && ordEons(sh) && ownAccusations(sh)
  ensures [accepted iff the eon is known] (err == nil) <==> old(hasEon(sh, e.Eon))
  ensures [appended] forall i: int :: old(eonAt(sh, e.Eon, i)) ==> len(sh.Eons[i].Accusations) == old(len(sh.Eons[i].Accusations)) + 1 && sh.Eons[i].Accusations[len(sh.Eons[i].Accusations) - 1] == e
  ensures [earlier ones stay] forall i: int, k: int :: 0 <= i && i < len(sh.Eons) && 0 <= k && k < old(len(sh.Eons[i].Accusations)) ==> sh.Eons[i].Accusations[k] == old(sh.Eons[i].Accusations[k])
  ensures [other eons stay] len(sh.Eons) == old(len(sh.Eons)) && forall i: int :: 0 <= i && i < len(sh.Eons) && !old(eonAt(sh, e.Eon, i)) ==> sh.Eons[i] == old(sh.Eons[i])
  ensures [everything else stays] *sh == old(*sh) && forall i: int :: 0 <= i && i < len(sh.Eons) ==> sh.Eons[i].Eon == old(sh.Eons[i].Eon) && sh.Eons[i].StartHeight == old(sh.Eons[i].StartHeight) && sh.Eons[i].StartEvent == old(sh.Eons[i].StartEvent) && sh.Eons[i].Commitments == old(sh.Eons[i].Commitments) && sh.Eons[i].PolyEvals == old(sh.Eons[i].PolyEvals) && sh.Eons[i].Apologies == old(sh.Eons[i].Apologies) && sh.Eons[i].EpochSecretKeyShares == old(sh.Eons[i].EpochSecretKeyShares)
  ensures [own lists] ownAccusations(sh)

define ownApologies(sh) = forall i: int, j: int :: 0 <= i && i < j && j < len(sh.Eons) ==> sh.Eons[i].Apologies == nil || ref(sh.Eons[i].Apologies) != ref(sh.Eons[j].Apologies)
fn (*observe.Shutter).applyApology(sh, e) returns (err) props K11 nopanic
  requires sh != nil && ordEons(sh) && ownApologies(sh)
  ensures [accepted iff the eon is known] (err == nil) <==> old(hasEon(sh, e.Eon))
  ensures [appended] forall i: int :: old(eonAt(sh, e.Eon, i)) ==> len(sh.Eons[i].Apologies) == old(len(sh.Eons[i].Apologies)) + 1 && sh.Eons[i].Apologies[len(sh.Eons[i].Apologies) - 1] == e
  ensures [earlier ones stay] forall i: int, k: int :: 0 <= i && i < len(sh.Eons) && 0 <= k && k < old(len(sh.Eons[i].Apologies)) ==> sh.Eons[i].Apologies[k] == old(sh.Eons[i].Apologies[k])
  ensures [other eons stay] len(sh.Eons) == old(len(sh.Eons)) && forall i: int :: 0 <= i && i < len(sh.Eons) && !old(eonAt(sh, e.Eon, i)) ==> sh.Eons[i] == old(sh.Eons[i])
  ensures [everything else stays] *sh == old(*sh) && forall i: int :: 0 <= i && i < len(sh.Eons) ==> sh.Eons[i].Eon == old(sh.Eons[i].Eon) && sh.Eons[i].StartHeight == old(sh.Eons[i].StartHeight) && sh.Eons[i].StartEvent == old(sh.Eons[i].StartEvent) && sh.Eons[i].Commitments == old(sh.Eons[i].Commitments) && sh.Eons[i].PolyEvals == old(sh.Eons[i].PolyEvals) && sh.Eons[i].Accusations == old(sh.Eons[i].Accusations) && sh.Eons[i].EpochSecretKeyShares == old(sh.Eons[i].EpochSecretKeyShares)
  ensures [own lists] ownApologies(sh)

define ownEpochSecretKeyShares(sh) = forall i: int, j: int :: 0 <= i && i < j && j < len(sh.Eons) ==> sh.Eons[i].EpochSecretKeyShares == nil || ref(sh.Eons[i].EpochSecretKeyShares) != ref(sh.Eons[j].EpochSecretKeyShares)
fn (*observe.Shutter).applyEpochSecretKeyShare(sh, e) returns (err) props K11 nopanic
  requires sh != nil && ordEons(sh) && ownEpochSecretKeyShares(sh)
  ensures [accepted iff the eon is known] (err == nil) <==> old(hasEon(sh, e.Eon))
  ensures [appended] forall i: int :: old(eonAt(sh, e.Eon, i)) ==> len(sh.Eons[i].EpochSecretKeyShares) == old(len(sh.Eons[i].EpochSecretKeyShares)) + 1 && sh.Eons[i].EpochSecretKeyShares[len(sh.Eons[i].EpochSecretKeyShares) - 1] == e
  ensures [earlier ones stay] forall i: int, k: int :: 0 <= i && i < len(sh.Eons) && 0 <= k && k < old(len(sh.Eons[i].EpochSecretKeyShares)) ==> sh.Eons[i].EpochSecretKeyShares[k] == old(sh.Eons[i].EpochSecretKeyShares[k])
  ensures [other eons stay] len(sh.Eons) == old(len(sh.Eons)) && forall i: int :: 0 <= i && i < len(sh.Eons) && !old(eonAt(sh, e.Eon, i)) ==> sh.Eons[i] == old(sh.Eons[i])
  ensures [everything else stays] *sh == old(*sh) && forall i: int :: 0 <= i && i < len(sh.Eons) ==> sh.Eons[i].Eon == old(sh.Eons[i].Eon) && sh.Eons[i].StartHeight == old(sh.Eons[i].StartHeight) && sh.Eons[i].StartEvent == old(sh.Eons[i].StartEvent) && sh.Eons[i].Commitments == old(sh.Eons[i].Commitments) && sh.Eons[i].PolyEvals == old(sh.Eons[i].PolyEvals) && sh.Eons[i].Accusations == old(sh.Eons[i].Accusations) && sh.Eons[i].Apologies == old(sh.Eons[i].Apologies)
  ensures [own lists] ownEpochSecretKeyShares(sh)

extern reflect.TypeOf(x) returns (t) nopanic
define shutterInv(sh) = sh.KeyperEncryptionKeys != nil && sh.Batches != nil && ordEons(sh) && ownBatches(sh) && ownCommitments(sh) && ownPolyEvals(sh) && ownAccusations(sh) && ownApologies(sh) && ownEpochSecretKeyShares(sh)
// whatever event is applied: it is recorded in the place for its kind, and every event recorded before stays where it is
fn (*observe.Shutter).applyEvent(sh, ev) props K11 nopanic
  requires sh != nil && shutterInv(sh) && (istype(ev, *shutterevents.CheckIn) ==> as(ev, *shutterevents.CheckIn) != nil) && (istype(ev, *shutterevents.BatchConfig) ==> as(ev, *shutterevents.BatchConfig) != nil) && (istype(ev, *shutterevents.DecryptionSignature) ==> as(ev, *shutterevents.DecryptionSignature) != nil) && (istype(ev, *shutterevents.EonStarted) ==> as(ev, *shutterevents.EonStarted) != nil) && (istype(ev, *shutterevents.PolyCommitment) ==> as(ev, *shutterevents.PolyCommitment) != nil) && (istype(ev, *shutterevents.PolyEval) ==> as(ev, *shutterevents.PolyEval) != nil) && (istype(ev, *shutterevents.Accusation) ==> as(ev, *shutterevents.Accusation) != nil) && (istype(ev, *shutterevents.Apology) ==> as(ev, *shutterevents.Apology) != nil) && (istype(ev, *shutterevents.EpochSecretKeyShare) ==> as(ev, *shutterevents.EpochSecretKeyShare) != nil)
  ensures [eons stay] len(sh.Eons) >= old(len(sh.Eons)) && forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> sh.Eons[i].Eon == old(sh.Eons[i].Eon) && sh.Eons[i].StartEvent == old(sh.Eons[i].StartEvent) && sh.Eons[i].StartHeight == old(sh.Eons[i].StartHeight)
  ensures [new eon only when started] !istype(ev, *shutterevents.EonStarted) ==> len(sh.Eons) == old(len(sh.Eons))
  ensures [eon started] istype(ev, *shutterevents.EonStarted) && (old(len(sh.Eons)) == 0 || old(sh.Eons[len(sh.Eons) - 1]).Eon < as(ev, *shutterevents.EonStarted).Eon) ==> len(sh.Eons) == old(len(sh.Eons)) + 1 && sh.Eons[len(sh.Eons) - 1].StartEvent == old(*as(ev, *shutterevents.EonStarted))
  ensures [config recorded] istype(ev, *shutterevents.BatchConfig) ==> len(sh.BatchConfigs) == old(len(sh.BatchConfigs)) + 1 && sh.BatchConfigs[len(sh.BatchConfigs) - 1] == old(*as(ev, *shutterevents.BatchConfig))
  ensures [configs stay] (!istype(ev, *shutterevents.BatchConfig) ==> len(sh.BatchConfigs) == old(len(sh.BatchConfigs))) && forall i: int :: 0 <= i && i < old(len(sh.BatchConfigs)) ==> sh.BatchConfigs[i] == old(sh.BatchConfigs[i])
  ensures [check in recorded] istype(ev, *shutterevents.CheckIn) ==> sh.KeyperEncryptionKeys[as(ev, *shutterevents.CheckIn).Sender] == as(ev, *shutterevents.CheckIn).EncryptionPublicKey && as(ev, *shutterevents.CheckIn).Sender in sh.KeyperEncryptionKeys
  ensures [check ins stay] forall a: common.Address :: old(a in sh.KeyperEncryptionKeys) ==> a in sh.KeyperEncryptionKeys && (!istype(ev, *shutterevents.CheckIn) ==> sh.KeyperEncryptionKeys[a] == old(sh.KeyperEncryptionKeys[a]))
  ensures [signatures stay] forall b: uint64 :: old(b in sh.Batches) ==> b in sh.Batches && sh.Batches[b] == old(sh.Batches[b]) && forall i: int :: 0 <= i && i < old(len(sh.Batches[b].DecryptionSignatures)) ==> i < len(sh.Batches[b].DecryptionSignatures) && sh.Batches[b].DecryptionSignatures[i] == old(sh.Batches[b].DecryptionSignatures[i])
  ensures [signature recorded] istype(ev, *shutterevents.DecryptionSignature) ==> as(ev, *shutterevents.DecryptionSignature).BatchIndex in sh.Batches && len(sh.Batches[as(ev, *shutterevents.DecryptionSignature).BatchIndex].DecryptionSignatures) > 0 && sh.Batches[as(ev, *shutterevents.DecryptionSignature).BatchIndex].DecryptionSignatures[len(sh.Batches[as(ev, *shutterevents.DecryptionSignature).BatchIndex].DecryptionSignatures) - 1] == old(*as(ev, *shutterevents.DecryptionSignature))
  ensures [progress unchanged] sh.CurrentBlock == old(sh.CurrentBlock) && sh.LastCommittedHeight == old(sh.LastCommittedHeight) && sh.Filter == old(sh.Filter)
  ensures [invariant] shutterInv(sh)
  ensures [Commitments recorded] istype(ev, *shutterevents.PolyCommitment) ==> forall i: int :: old(eonAt(sh, as(ev, *shutterevents.PolyCommitment).Eon, i)) ==> len(sh.Eons[i].Commitments) == old(len(sh.Eons[i].Commitments)) + 1 && sh.Eons[i].Commitments[len(sh.Eons[i].Commitments) - 1] == old(*as(ev, *shutterevents.PolyCommitment))
  ensures [Commitments stay] forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> (len(sh.Eons[i].Commitments) == old(len(sh.Eons[i].Commitments)) || istype(ev, *shutterevents.PolyCommitment)) && forall k: int :: 0 <= k && k < old(len(sh.Eons[i].Commitments)) ==> k < len(sh.Eons[i].Commitments) && sh.Eons[i].Commitments[k] == old(sh.Eons[i].Commitments[k])
  ensures [PolyEvals recorded] istype(ev, *shutterevents.PolyEval) ==> forall i: int :: old(eonAt(sh, as(ev, *shutterevents.PolyEval).Eon, i)) ==> len(sh.Eons[i].PolyEvals) == old(len(sh.Eons[i].PolyEvals)) + 1 && sh.Eons[i].PolyEvals[len(sh.Eons[i].PolyEvals) - 1] == old(*as(ev, *shutterevents.PolyEval))
  ensures [PolyEvals stay] forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> (len(sh.Eons[i].PolyEvals) == old(len(sh.Eons[i].PolyEvals)) || istype(ev, *shutterevents.PolyEval)) && forall k: int :: 0 <= k && k < old(len(sh.Eons[i].PolyEvals)) ==> k < len(sh.Eons[i].PolyEvals) && sh.Eons[i].PolyEvals[k] == old(sh.Eons[i].PolyEvals[k])
  ensures [Accusations recorded] istype(ev, *shutterevents.Accusation) ==> forall i: int :: old(eonAt(sh, as(ev, *shutterevents.Accusation).Eon, i)) ==> len(sh.Eons[i].Accusations) == old(len(sh.Eons[i].Accusations)) + 1 && sh.Eons[i].Accusations[len(sh.Eons[i].Accusations) - 1] == old(*as(ev, *shutterevents.Accusation))
  ensures [Accusations stay] forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> (len(sh.Eons[i].Accusations) == old(len(sh.Eons[i].Accusations)) || istype(ev, *shutterevents.Accusation)) && forall k: int :: 0 <= k && k < old(len(sh.Eons[i].Accusations)) ==> k < len(sh.Eons[i].Accusations) && sh.Eons[i].Accusations[k] == old(sh.Eons[i].Accusations[k])
  ensures [Apologies recorded] istype(ev, *shutterevents.Apology) ==> forall i: int :: old(eonAt(sh, as(ev, *shutterevents.Apology).Eon, i)) ==> len(sh.Eons[i].Apologies) == old(len(sh.Eons[i].Apologies)) + 1 && sh.Eons[i].Apologies[len(sh.Eons[i].Apologies) - 1] == old(*as(ev, *shutterevents.Apology))
  ensures [Apologies stay] forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> (len(sh.Eons[i].Apologies) == old(len(sh.Eons[i].Apologies)) || istype(ev, *shutterevents.Apology)) && forall k: int :: 0 <= k && k < old(len(sh.Eons[i].Apologies)) ==> k < len(sh.Eons[i].Apologies) && sh.Eons[i].Apologies[k] == old(sh.Eons[i].Apologies[k])
  ensures [EpochSecretKeyShares recorded] istype(ev, *shutterevents.EpochSecretKeyShare) ==> forall i: int :: old(eonAt(sh, as(ev, *shutterevents.EpochSecretKeyShare).Eon, i)) ==> len(sh.Eons[i].EpochSecretKeyShares) == old(len(sh.Eons[i].EpochSecretKeyShares)) + 1 && sh.Eons[i].EpochSecretKeyShares[len(sh.Eons[i].EpochSecretKeyShares) - 1] == old(*as(ev, *shutterevents.EpochSecretKeyShare))
  ensures [EpochSecretKeyShares stay] forall i: int :: 0 <= i && i < old(len(sh.Eons)) ==> (len(sh.Eons[i].EpochSecretKeyShares) == old(len(sh.Eons[i].EpochSecretKeyShares)) || istype(ev, *shutterevents.EpochSecretKeyShare)) && forall k: int :: 0 <= k && k < old(len(sh.Eons[i].EpochSecretKeyShares)) ==> k < len(sh.Eons[i].EpochSecretKeyShares) && sh.Eons[i].EpochSecretKeyShares[k] == old(sh.Eons[i].EpochSecretKeyShares[k])
