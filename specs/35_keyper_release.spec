// Release of epoch key shares (K06).
package epochkg "github.com/shutter-network/shutter/shuttermint/keyper/epochkg"

fn (*keyper.State).FindEKGByEon(st, eon) returns (k, err) props K06 use nopanic
  requires st != nil && forall i: int :: 0 <= i && i < len(st.EKGs) ==> st.EKGs[i] != nil
  modifies
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> st.EKGs[j].Eon != eon
  ensures [found iff one has the eon] (err == nil) <==> exists j: int :: 0 <= j && j < len(st.EKGs) && st.EKGs[j].Eon == eon
  ensures [the first of the eon] err == nil ==> k != nil && k.Eon == eon && exists j: int {st.EKGs[j]} :: 0 <= j && j < len(st.EKGs) && k == st.EKGs[j] && forall i: int :: 0 <= i && i < j ==> st.EKGs[i].Eon != eon

// the released share of an action
define msgOf(d, i) = as(d.Actions[i], *fx.SendShuttermintMessage).Msg
define relOf(d, i) = as(msgOf(d, i).Payload, *shmsg.Message_EpochSecretKeyShare).EpochSecretKeyShare
define isRelease(d, i) = istype(d.Actions[i], *fx.SendShuttermintMessage) && as(d.Actions[i], *fx.SendShuttermintMessage) != nil && ref(as(d.Actions[i], *fx.SendShuttermintMessage)) < allocated && msgOf(d, i) != nil && ref(msgOf(d, i)) < allocated && istype(msgOf(d, i).Payload, *shmsg.Message_EpochSecretKeyShare) && as(msgOf(d, i).Payload, *shmsg.Message_EpochSecretKeyShare) != nil && ref(as(msgOf(d, i).Payload, *shmsg.Message_EpochSecretKeyShare)) < allocated && relOf(d, i) != nil && ref(relOf(d, i)) < allocated && ref(relOf(d, i).Share) < allocated
define shareIs(d, i, k, e) = relOf(d, i).Eon == k.Eon && relOf(d, i).Epoch == e && content(relOf(d, i).Share) == shareEnc(shareFor(*k.SecretKeyShare, epochID(e)))
define wfKey(k) = k != nil && k.SecretKeyShare != nil

fn (*keyper.Decider).sendEpochSecretKeyShare(d, k, e) props K06 use
  requires d != nil && wfKey(k)
  modifies d.Actions, elems(d.Actions)
  maypanic [not a pointer] true
  ensures [own list] ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  ensures [earlier actions stay] forall i: int {d.Actions[i]} :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  ensures [nothing once the key is known] e in k.SecretKeys ==> len(d.Actions) == old(len(d.Actions))
  ensures [otherwise the own share for exactly this epoch and eon] !(e in k.SecretKeys) ==> len(d.Actions) == old(len(d.Actions)) + 1 && isRelease(d, old(len(d.Actions))) && shareIs(d, old(len(d.Actions)), k, e)

define wfEKGs(st) = forall i: int {st.EKGs[i]} :: 0 <= i && i < len(st.EKGs) ==> st.EKGs[i] != nil && wfKey(st.EKGs[i].EpochKG) && st.EKGs[i].EpochKG.Eon == st.EKGs[i].Eon && ref(st.EKGs[i]) < allocated && ref(st.EKGs[i].EpochKG) < allocated && ref(st.EKGs[i].EpochKG.SecretKeyShare) < allocated && ref(st.EKGs[i].EpochKG.SecretKeys) < allocated
define newAct(d, i, n) = n <= i && i < len(d.Actions)

define timedOut(mc, k, b) = mc.CurrentBlock + 1 >= startOf(mc.BatchConfigs[k], b + 1) + mc.BatchConfigs[k].ExecutionTimeout

// the configuration of a batch is active, and the batch's execution timeout is not reached yet
define executable(mc, b) = forall k: int {mc.BatchConfigs[k].StartBatchIndex} :: lastByBatch(mc, b, k) ==> mc.BatchConfigs[k].BatchSpan > 0 && (startOf(mc.BatchConfigs[k], b + 1) + mc.BatchConfigs[k].ExecutionTimeout < 18446744073709551616 ==> !timedOut(mc, k, b))

// names for what a released share has to be in the state the decision starts from: the position of the last shuttermint
// configuration and of the last eon started at or before a batch, and of the first key of an eon (-1: there is none)
declare shIdx(Int): Int
declare eoIdx(Int): Int
declare keyIdx(Int): Int
define namesIdx(d) = (forall e: uint64 {shIdx(e)} :: -1 <= shIdx(e) && shIdx(e) < len(d.Shutter.BatchConfigs) && (shIdx(e) >= 0 ==> d.Shutter.BatchConfigs[shIdx(e)].StartBatchIndex <= e) && forall j: int {d.Shutter.BatchConfigs[j]} :: shIdx(e) < j && j < len(d.Shutter.BatchConfigs) ==> d.Shutter.BatchConfigs[j].StartBatchIndex > e) &&
  (forall e: uint64 {eoIdx(e)} :: -1 <= eoIdx(e) && eoIdx(e) < len(d.Shutter.Eons) && (eoIdx(e) >= 0 ==> d.Shutter.Eons[eoIdx(e)].StartEvent.BatchIndex <= e) && forall j: int {d.Shutter.Eons[j]} :: eoIdx(e) < j && j < len(d.Shutter.Eons) ==> d.Shutter.Eons[j].StartEvent.BatchIndex > e) &&
  (forall n: uint64 {keyIdx(n)} :: -1 <= keyIdx(n) && keyIdx(n) < len(d.State.EKGs) && (keyIdx(n) >= 0 ==> d.State.EKGs[keyIdx(n)].Eon == n) && forall j: int {d.State.EKGs[j]} :: 0 <= j && j < ite(keyIdx(n) < 0, len(d.State.EKGs), keyIdx(n)) ==> d.State.EKGs[j].Eon != n)
define theEon(d, e) = d.Shutter.Eons[eoIdx(e)].Eon
define theKey(d, e) = d.State.EKGs[keyIdx(theEon(d, e))].EpochKG
// the own share of an epoch can be computed: the keyper belongs to the batch, the eon of the batch has a key, the epoch key is not known yet
define canShare(d, e) = shIdx(e) >= 0 && listed(d.Shutter.BatchConfigs[shIdx(e)].Keypers, pkAddr(d.Config.SigningKey.PublicKey)) && eoIdx(e) >= 0 && keyIdx(theEon(d, e)) >= 0 && !(e in theKey(d, e).SecretKeys)
declare hasShare(Int): Bool
declare shareEon(Int): Int
declare shareText(Int): Str
define namesShare(d) = forall e: uint64 {hasShare(e)} :: (hasShare(e) <==> canShare(d, e)) && (hasShare(e) ==> shareEon(e) == theEon(d, e) && shareText(e) == shareEnc(shareFor(*theKey(d, e).SecretKeyShare, epochID(e))))
define isShare(d, i, e) = isRelease(d, i) && relOf(d, i).Epoch == e && relOf(d, i).Eon == shareEon(e) && content(relOf(d, i).Share) == shareText(e)
declare mayRelease(Int): Bool
declare fits(Int): Bool
define timeFits(mc, b) = forall k: int {mc.BatchConfigs[k].StartBatchIndex} :: lastByBatch(mc, b, k) && mc.BatchConfigs[k].BatchSpan > 0 ==> startOf(mc.BatchConfigs[k], b + 1) + mc.BatchConfigs[k].ExecutionTimeout < 18446744073709551616
define namesFits(d) = forall e: uint64 {fits(e)} :: fits(e) <==> timeFits(d.MainChain, e)
define namesTime(d) = forall e: uint64 {mayRelease(e)} :: mayRelease(e) <==> executable(d.MainChain, e)

fn (*keyper.Decider).publishEpochSecretKeyShare(d, b) props K06 use
  requires d != nil && d.State != nil && d.Shutter != nil && d.Config.SigningKey != nil && wfEKGs(d.State)
  requires namesIdx(d) && namesShare(d)
  modifies d.Actions, elems(d.Actions)
  maypanic [not a pointer] true
  ensures [own list] ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  ensures [earlier actions stay] forall i: int {d.Actions[i]} :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  ensures [one share when it can be computed, otherwise none] len(d.Actions) == old(len(d.Actions)) + ite(hasShare(b), 1, 0)
  ensures [the own share for this batch, in its eon] hasShare(b) ==> isShare(d, old(len(d.Actions)), b)

fn (*keyper.Decider).executionTimeoutReachedOrInactive(d, b) returns (r) props K06 use
  requires d != nil && d.MainChain != nil
  requires d.MainChain.CurrentBlock < 4611686018427387904
  requires namesTime(d) && namesFits(d)
  modifies
  panics [no configuration started] noneByBatch(d.MainChain, b)
  ensures [not inactive, and at least a block left] !r ==> mayRelease(b)
  ensures [only then] fits(b) && mayRelease(b) ==> !r

// the number of shares to release for the batches from the first one not looked at yet up to a batch
declare relCnt(Int): Int
define namesCount(d) = relCnt(d.State.NextEpochSecretShare) == 0 && forall e: uint64 {mayRelease(e)} :: relCnt(e + 1) == relCnt(e) + ite(mayRelease(e) && hasShare(e), 1, 0)
fn (*keyper.Decider).publishEpochSecretKeyShares(d) props K06
  requires d != nil && d.State != nil && d.Shutter != nil && d.MainChain != nil && d.Config.SigningKey != nil && wfEKGs(d.State)
  requires d.MainChain.CurrentBlock < 4611686018427387904
  requires namesTime(d) && namesFits(d) && namesIdx(d) && namesShare(d)
  requires namesCount(d)
  modifies d.State.NextEpochSecretShare, d.Actions, elems(d.Actions)
  maypanic [no configuration started] true
  loopinv ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  loopinv len(d.Actions) >= old(len(d.Actions)) && forall i: int {d.Actions[i]} :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  loopinv forall i: int {d.Actions[i]} :: newAct(d, i, old(len(d.Actions))) ==> isShare(d, i, relOf(d, i).Epoch)
  loopinv forall i: int {d.Actions[i]} :: newAct(d, i, old(len(d.Actions))) ==> mayRelease(relOf(d, i).Epoch) && hasShare(relOf(d, i).Epoch)
  loopinv forall i: int {d.Actions[i]} :: newAct(d, i, old(len(d.Actions))) ==> old(d.State.NextEpochSecretShare) <= relOf(d, i).Epoch
  loopinv ($b: uint64) forall i: int {d.Actions[i]} :: newAct(d, i, old(len(d.Actions))) ==> relOf(d, i).Epoch < $b
  loopinv ($b: uint64) (forall e: uint64 :: old(d.State.NextEpochSecretShare) <= e && e < $b ==> fits(e)) ==> len(d.Actions) - old(len(d.Actions)) == relCnt($b)
  loopinv forall i: int, j: int {d.Actions[i], d.Actions[j]} :: newAct(d, i, old(len(d.Actions))) && newAct(d, j, old(len(d.Actions))) && i < j ==> relOf(d, i).Epoch < relOf(d, j).Epoch
  ensures [earlier actions stay] len(d.Actions) >= old(len(d.Actions)) && forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  ensures [only own shares, in the eon of their batch] forall i: int :: newAct(d, i, old(len(d.Actions))) ==> isShare(d, i, relOf(d, i).Epoch)
  ensures [only while the batch can still be executed, by a keyper of the batch] forall i: int :: newAct(d, i, old(len(d.Actions))) ==> mayRelease(relOf(d, i).Epoch) && hasShare(relOf(d, i).Epoch)
  ensures [each batch is looked at once] forall i: int :: newAct(d, i, old(len(d.Actions))) ==> old(d.State.NextEpochSecretShare) <= relOf(d, i).Epoch && relOf(d, i).Epoch < d.State.NextEpochSecretShare
  ensures [only batches before the current one] d.State.NextEpochSecretShare == old(d.State.NextEpochSecretShare) || forall c: int {d.MainChain.BatchConfigs[c].StartBlockNumber} :: lastByBlock(d.MainChain, d.MainChain.CurrentBlock, c) ==> ite(d.MainChain.BatchConfigs[c].BatchSpan > 0, d.MainChain.BatchConfigs[c].StartBatchIndex + (d.MainChain.CurrentBlock - d.MainChain.BatchConfigs[c].StartBlockNumber) / d.MainChain.BatchConfigs[c].BatchSpan < 18446744073709551616 ==> startOf(d.MainChain.BatchConfigs[c], d.State.NextEpochSecretShare) <= d.MainChain.CurrentBlock, d.State.NextEpochSecretShare == d.MainChain.BatchConfigs[c].StartBatchIndex)
  ensures [one share per epoch] forall i: int, j: int :: newAct(d, i, old(len(d.Actions))) && newAct(d, j, old(len(d.Actions))) && i < j ==> relOf(d, i).Epoch < relOf(d, j).Epoch
  ensures [none is left out] old(d.State.NextEpochSecretShare) <= d.State.NextEpochSecretShare && (forall e: uint64 :: old(d.State.NextEpochSecretShare) <= e && e < d.State.NextEpochSecretShare ==> fits(e)) ==> len(d.Actions) - old(len(d.Actions)) == relCnt(d.State.NextEpochSecretShare)

// configurations follow each other without gap or overlap (the config contract ensures it): then every batch before
// the current one is over, whichever configuration governs it
define follows(mc) = (forall i: int, j: int {mc.BatchConfigs[i].StartBlockNumber, mc.BatchConfigs[j].StartBlockNumber} :: 0 <= i && i < j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[i].StartBlockNumber <= mc.BatchConfigs[j].StartBlockNumber && mc.BatchConfigs[i].StartBatchIndex <= mc.BatchConfigs[j].StartBatchIndex)
define seam(mc, i) = startOf(mc.BatchConfigs[i], mc.BatchConfigs[i + 1].StartBatchIndex) == mc.BatchConfigs[i + 1].StartBlockNumber
lemma endedBefore(mc: *observe.MainChain, c: int, k: int, cur: uint64, b: uint64) props K06
  requires mc != nil && follows(mc) && lastByBlock(mc, mc.CurrentBlock, c) && lastByBatch(mc, b, k) && mc.BatchConfigs[k].BatchSpan > 0
  requires k < c ==> seam(mc, k)
  requires c < k && mc.BatchConfigs[c].BatchSpan > 0 ==> seam(mc, c)
  requires mc.BatchConfigs[c].BatchSpan > 0 ==> startOf(mc.BatchConfigs[c], cur) <= mc.CurrentBlock
  requires mc.BatchConfigs[c].BatchSpan == 0 ==> cur == mc.BatchConfigs[c].StartBatchIndex
  requires b < cur
  assert k == c ==> (b + 1 - mc.BatchConfigs[k].StartBatchIndex) * mc.BatchConfigs[k].BatchSpan <= (cur - mc.BatchConfigs[k].StartBatchIndex) * mc.BatchConfigs[k].BatchSpan
  assert k < c ==> b < mc.BatchConfigs[k + 1].StartBatchIndex
  assert k < c ==> (b + 1 - mc.BatchConfigs[k].StartBatchIndex) * mc.BatchConfigs[k].BatchSpan <= (mc.BatchConfigs[k + 1].StartBatchIndex - mc.BatchConfigs[k].StartBatchIndex) * mc.BatchConfigs[k].BatchSpan
  assert k < c ==> mc.BatchConfigs[k + 1].StartBlockNumber <= mc.BatchConfigs[c].StartBlockNumber
  assert c < k ==> mc.BatchConfigs[c].BatchSpan > 0 && mc.BatchConfigs[c + 1].StartBlockNumber > mc.CurrentBlock
  assert c < k ==> mc.BatchConfigs[c + 1].StartBatchIndex <= mc.BatchConfigs[k].StartBatchIndex
  assert c < k ==> (mc.BatchConfigs[c + 1].StartBatchIndex - mc.BatchConfigs[c].StartBatchIndex) * mc.BatchConfigs[c].BatchSpan <= (cur - mc.BatchConfigs[c].StartBatchIndex) * mc.BatchConfigs[c].BatchSpan
  ensures [over] startOf(mc.BatchConfigs[k], b + 1) <= mc.CurrentBlock
