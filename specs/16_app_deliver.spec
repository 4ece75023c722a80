// The chain application: state invariant and message handlers (A01 A02 A03 A04 A07 A09).
package abcitypes "github.com/tendermint/tendermint/abci/types"
package ecies "github.com/ethereum/go-ethereum/crypto/ecies"

define validConfig(c) = len(c.Keypers) > 0 && c.Threshold > 0 && c.Threshold <= len(c.Keypers)
define wfConfigs(app) = len(app.Configs) > 0 &&
  (forall i: int :: 0 <= i && i < len(app.Configs) ==> app.Configs[i] != nil && ref(app.Configs[i]) < allocated && ref(app.Configs[i].Keypers) < allocated && validConfig(app.Configs[i])) &&
  (forall i: int, j: int :: 0 <= i && i < j && j < len(app.Configs) ==> app.Configs[i] != app.Configs[j] && app.Configs[i].StartBatchIndex <= app.Configs[j].StartBatchIndex && app.Configs[i].ConfigIndex < app.Configs[j].ConfigIndex) &&
  app.Configs[0].StartBatchIndex == 0
define last(app) = app.Configs[len(app.Configs)-1]
define wfMaps(app) = app.BatchStates != nil && app.DKGMap != nil && app.EonStartVotings != nil && app.Identities != nil && app.StartedVotes != nil && ref(app.StartedVotes) < allocated
define wfBatches(app) = (forall b: uint64 :: b in app.BatchStates ==> app.BatchStates[b].Config != nil && app.BatchStates[b].BatchIndex == b && ref(app.BatchStates[b].DecryptionSignatures) < allocated) &&
  (forall b: uint64, c: uint64 :: b in app.BatchStates && c in app.BatchStates && b != c && ref(app.BatchStates[b].DecryptionSignatures) != 0 ==> ref(app.BatchStates[b].DecryptionSignatures) != ref(app.BatchStates[c].DecryptionSignatures))
define sepDKG(d, m) = d.PolyCommitmentsSeen != m && d.AccusationsSeen != m && d.ApologiesSeen != m
define wfDKGs(app) = (forall e: uint64 :: e in app.DKGMap ==> e <= app.EONCounter && wfDKG(app.DKGMap[e]) && app.DKGMap[e].Eon == e && ref(app.DKGMap[e]) < allocated) &&
  (forall e: uint64 :: e in app.DKGMap ==> ref(app.DKGMap[e].PolyEvalsSeen) < allocated && ref(app.DKGMap[e].PolyCommitmentsSeen) < allocated && ref(app.DKGMap[e].AccusationsSeen) < allocated && ref(app.DKGMap[e].ApologiesSeen) < allocated && sepDKG(app.DKGMap[e], app.StartedVotes)) &&
  (forall e: uint64, f: uint64 :: e in app.DKGMap && f in app.DKGMap && e != f ==> app.DKGMap[e] != app.DKGMap[f] && app.DKGMap[e].PolyEvalsSeen != app.DKGMap[f].PolyEvalsSeen && sepDKG(app.DKGMap[e], app.DKGMap[f].PolyCommitmentsSeen) && sepDKG(app.DKGMap[e], app.DKGMap[f].AccusationsSeen) && sepDKG(app.DKGMap[e], app.DKGMap[f].ApologiesSeen))
// ballots: voters are keypers, no candidate has the required votes yet
define wfConfigVotes(app) = wfConfigBallot(app.ConfigVoting) && (forall a: common.Address :: a in app.ConfigVoting.Votes ==> listed(last(app).Keypers, a)) &&
  (forall j: int :: votesFor(app.ConfigVoting, j) < last(app).Threshold)
define wfEonVotes(app) = (forall k: uint64 :: k in app.EonStartVotings ==> k <= last(app).ConfigIndex && app.EonStartVotings[k] != nil && ref(app.EonStartVotings[k]) < allocated && wfEonBallot(app.EonStartVotings[k]) && app.EonStartVotings[k].Votes != app.ConfigVoting.Votes) &&
  (forall k: uint64, l: uint64 :: k in app.EonStartVotings && l in app.EonStartVotings && k != l ==> app.EonStartVotings[k] != app.EonStartVotings[l] && app.EonStartVotings[k].Votes != app.EonStartVotings[l].Votes && (ref(app.EonStartVotings[k].Candidates) == 0 || ref(app.EonStartVotings[k].Candidates) != ref(app.EonStartVotings[l].Candidates))) &&
  (forall i: int, a: common.Address :: 0 <= i && i < len(app.Configs) && app.Configs[i].ConfigIndex in app.EonStartVotings && a in app.EonStartVotings[app.Configs[i].ConfigIndex].Votes ==> listed(app.Configs[i].Keypers, a)) &&
  (forall i: int, j: int :: 0 <= i && i < len(app.Configs) && app.Configs[i].ConfigIndex in app.EonStartVotings ==> votesFor(app.EonStartVotings[app.Configs[i].ConfigIndex], j) < app.Configs[i].Threshold)
define wfStarted(app) = (forall a: common.Address :: a in app.StartedVotes ==> len(app.Configs) >= 2 && listed(app.Configs[len(app.Configs)-2].Keypers, a))
// the two nonce trackers share nothing
define wfNonces(app) = wfNT(app.NonceTracker) && wfCheck(app.CheckTxState) && app.CheckTxState.Members != app.CheckTxState.TxCounts && app.NonceTracker != app.CheckTxState.NonceTracker && app.NonceTracker.RandomNonces != app.CheckTxState.NonceTracker.RandomNonces &&
  app.CheckTxState.TxCounts != app.ConfigVoting.Votes && (forall k: uint64 :: k in app.EonStartVotings ==> app.EonStartVotings[k].Votes != app.CheckTxState.TxCounts) && ref(app.CheckTxState.TxCounts) < allocated &&
  (forall a: common.Address, b: common.Address :: a in app.NonceTracker.RandomNonces && b in app.CheckTxState.NonceTracker.RandomNonces ==> app.NonceTracker.RandomNonces[a] != app.CheckTxState.NonceTracker.RandomNonces[b])
define wfApp(app) = app != nil && ref(app) < allocated && wfConfigs(app) && wfMaps(app) && wfBatches(app) && wfDKGs(app) && wfConfigVotes(app) && wfEonVotes(app) && wfStarted(app) && wfNonces(app)
define keyperAny(app, a) = exists i: int :: 0 <= i && i < len(app.Configs) && listed(app.Configs[i].Keypers, a)

// the configuration in force at a batch: the last one starting at or before it
// lastLE: the last position of a list of configurations whose start is not after b
declare lastLE((Array Int Int), Int, Int, (Array Int Int), Int): Int needs lastLE_ax
smt lastLE_ax
  (assert (forall ((e (Array Int Int)) (o Int) (n Int) (s (Array Int Int)) (b Int)) (! (=> (and (> n 0) (<= (select s (select e (ix o 0))) b)) (and (<= 0 (lastLE e o n s b)) (< (lastLE e o n s b) n) (<= (select s (select e (ix o (lastLE e o n s b)))) b))) :pattern ((lastLE e o n s b)))))
  (assert (forall ((e (Array Int Int)) (o Int) (n Int) (s (Array Int Int)) (b Int) (j Int)) (! (=> (and (> n 0) (<= (select s (select e (ix o 0))) b) (< (lastLE e o n s b) j) (< j n)) (> (select s (select e (ix o j))) b)) :pattern ((lastLE e o n s b) (select e (ix o j))))))
define inForce(app, b, c) = app.Configs[lastLE(elems(app.Configs), off(app.Configs), len(app.Configs), fheap(ev.BatchConfig.StartBatchIndex), b)] == c

fn (*app.ShutterApp).getConfig(app, batchIndex) returns (c) props K02 use nopanic
  requires app != nil && wfConfigs(app)
  modifies
  loopinv ($n: int) forall j: int :: $n < j && j < len(app.Configs) ==> app.Configs[j].StartBatchIndex > batchIndex
  loopinv ($n: int) $n >= 0
  ensures [last configuration starting at or before the batch] c != nil && inForce(app, batchIndex, c)
  ensures validConfig(c)

fn (*app.ShutterApp).LastConfig(app) returns (c) use nopanic
  requires app != nil && len(app.Configs) > 0
  modifies
  ensures c == last(app)

fn (*app.ShutterApp).isKeyper(app, a) returns (ok) props A09 use nopanic
  requires app != nil && wfConfigs(app)
  modifies
  loopinv ($n: int) forall i: int :: 0 <= i && i < $n ==> !listed(app.Configs[i].Keypers, a)
  ensures [in any configuration] ok <==> keyperAny(app, a)

package bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
package hexutil "github.com/ethereum/go-ethereum/common/hexutil"
package shc12 "github.com/shutter-network/shutter/shlib/shcrypto"
package big "math/big"
pure github.com/ethereum/go-ethereum/common/hexutil.
opaque ecies.PublicKey U_EncKey zeroEncKey
declare zeroEncKey(): U_EncKey
declare exported(U_EncKey): U_PubKey
extern (*ecies.PublicKey).ExportECDSA(pk) returns (r)
  requires pk != nil
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == exported(*pk)
extern ethcrypto.FromECDSAPub(pk) returns (b)
  requires pk != nil
  ensures fresh(b)
extern (*bn256.G2).Marshal(g) returns (b)
  requires g != nil
  ensures b != nil && fresh(b) && ref(b) < allocated && content(b) == g2text(*g)
declare shareEnc(U_Share): Str
extern (*shc12.EpochSecretKeyShare).GobEncode(s) returns (b, err)
  requires s != nil
  ensures fresh(b) && content(b) == shareEnc(*s)

fn ev.encodeAddresses(addr) returns (b) use nopanic
  loopinv ($r: []string) $r != nil ==> fresh($r)
  modifies
  ensures fresh(b)
fn ev.encodeByteSequence(v) returns (b) use nopanic
  loopinv ($r: []string) $r != nil ==> fresh($r)
  modifies
  ensures fresh(b)
fn ev.encodeGammas(g) returns (b) use nopanic
  requires g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil
  loopinv ($r: []string) $r != nil ==> fresh($r)
  modifies
  ensures fresh(b)

fn (ev.DecryptionSignature).MakeABCIEvent(m) returns (e) use nopanic
  modifies
fn (ev.CheckIn).MakeABCIEvent(m) returns (e) use nopanic
  requires m.EncryptionPublicKey != nil
  modifies
fn (ev.EonStarted).MakeABCIEvent(m) returns (e) use nopanic
  modifies
fn (ev.BatchConfig).MakeABCIEvent(m) returns (e) use nopanic
  modifies
fn (ev.PolyEval).MakeABCIEvent(m) returns (e) use nopanic
  modifies
fn (ev.Accusation).MakeABCIEvent(m) returns (e) use nopanic
  modifies
fn (ev.PolyCommitment).MakeABCIEvent(m) returns (e) use nopanic
  requires m.Gammas != nil ==> forall i: int :: 0 <= i && i < len(*m.Gammas) ==> (*m.Gammas)[i] != nil
  modifies
fn (ev.Apology).MakeABCIEvent(m) returns (e) use nopanic
  requires forall j: int :: 0 <= j && j < len(m.PolyEval) ==> m.PolyEval[j] != nil
  loopinv ($r: [][]byte) $r != nil ==> fresh($r)
  modifies
fn (ev.EpochSecretKeyShare).MakeABCIEvent(m) returns (e) use nopanic
  requires m.Share != nil
  modifies

// the configuration a batch's signatures are checked against
define batchConfig(app, b, c) = ite(b in app.BatchStates, app.BatchStates[b].Config == c, inForce(app, b, c))
define signed(app, b, s) = exists i: int :: 0 <= i && i < len(app.BatchStates[b].DecryptionSignatures) && app.BatchStates[b].DecryptionSignatures[i].Sender == s

fn (*app.ShutterApp).deliverDecryptionSignature(app, msg, sender) returns (r) props A07 use own nopanic
  requires wfApp(app) && msg != nil
  modifies mapof(app.BatchStates), elems(app.BatchStates[msg.BatchIndex].DecryptionSignatures)
  loopinv ($n: int, $s: []app.DecryptionSignature) forall i: int :: 0 <= i && i < $n ==> $s[i].Sender != sender
  ensures [accept iff keyper of the batch and not signed before] forall c: *ev.BatchConfig :: old(batchConfig(app, msg.BatchIndex, c)) ==> (r.Code == 0 <==> old(listed(c.Keypers, sender) && !signed(app, msg.BatchIndex, sender)))
  ensures [appended keeping the earlier ones] r.Code == 0 ==> msg.BatchIndex in app.BatchStates && len(app.BatchStates[msg.BatchIndex].DecryptionSignatures) == old(len(app.BatchStates[msg.BatchIndex].DecryptionSignatures)) + 1 && (forall i: int :: 0 <= i && i < old(len(app.BatchStates[msg.BatchIndex].DecryptionSignatures)) ==> app.BatchStates[msg.BatchIndex].DecryptionSignatures[i] == old(app.BatchStates[msg.BatchIndex].DecryptionSignatures[i])) && app.BatchStates[msg.BatchIndex].DecryptionSignatures[old(len(app.BatchStates[msg.BatchIndex].DecryptionSignatures))] == mk(app.DecryptionSignature, sender, msg.Signature)
  ensures [configuration stays fixed] r.Code == 0 ==> forall c: *ev.BatchConfig :: old(batchConfig(app, msg.BatchIndex, c)) ==> app.BatchStates[msg.BatchIndex].Config == c
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [other batches unaffected] forall b: uint64 :: b != msg.BatchIndex ==> (b in app.BatchStates <==> old(b in app.BatchStates)) && app.BatchStates[b] == old(app.BatchStates[b]) && (forall i: int :: 0 <= i && i < len(app.BatchStates[b].DecryptionSignatures) ==> app.BatchStates[b].DecryptionSignatures[i] == old(app.BatchStates[b].DecryptionSignatures[i]))
  ensures [invariant] wfApp(app)

declare decompressOK(Str): Bool
declare decompressPK(Str): U_PubKey
extern ethcrypto.DecompressPubkey(b) returns (pk, err)
  ensures (err == nil) <==> decompressOK(content(b))
  ensures err == nil ==> pk != nil && fresh(pk) && *pk == decompressPK(content(b))
extern ecies.ImportECDSAPublic(pk) returns (r)
  requires pk != nil
  ensures r != nil && fresh(r)

fn (*app.ShutterApp).deliverCheckIn(app, msg, sender) returns (r) props A09 use own nopanic
  requires wfApp(app) && msg != nil
  modifies mapof(app.Identities)
  ensures [accept iff] r.Code == 0 <==> old(!(sender in app.Identities) && keyperAny(app, sender) && len(msg.ValidatorPublicKey) == 32 && decompressOK(content(msg.EncryptionPublicKey)))
  ensures [registers exactly this key] r.Code == 0 ==> app.Identities[sender].Ed25519pubkey == content(msg.ValidatorPublicKey) && (forall a: common.Address :: (a in app.Identities <==> (old(a in app.Identities) || a == sender)) && (a != sender ==> app.Identities[a] == old(app.Identities[a])))
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
