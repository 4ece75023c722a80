// Transaction delivery, mempool admission and commit (A01 A02).
define payloadOK(m) = m == nil || m.Payload == nil ||
  (istype(m.Payload, *shmsg.Message_BatchConfig) ==> as(m.Payload, *shmsg.Message_BatchConfig) != nil) &&
  (istype(m.Payload, *shmsg.Message_BatchConfigStarted) ==> as(m.Payload, *shmsg.Message_BatchConfigStarted) != nil) &&
  (istype(m.Payload, *shmsg.Message_CheckIn) ==> as(m.Payload, *shmsg.Message_CheckIn) != nil) &&
  (istype(m.Payload, *shmsg.Message_EonStartVote) ==> as(m.Payload, *shmsg.Message_EonStartVote) != nil) &&
  (istype(m.Payload, *shmsg.Message_DecryptionSignature) ==> as(m.Payload, *shmsg.Message_DecryptionSignature) != nil) &&
  (istype(m.Payload, *shmsg.Message_PolyEval) ==> as(m.Payload, *shmsg.Message_PolyEval) != nil) &&
  (istype(m.Payload, *shmsg.Message_PolyCommitment) ==> as(m.Payload, *shmsg.Message_PolyCommitment) != nil) &&
  (istype(m.Payload, *shmsg.Message_Accusation) ==> as(m.Payload, *shmsg.Message_Accusation) != nil) &&
  (istype(m.Payload, *shmsg.Message_Apology) ==> as(m.Payload, *shmsg.Message_Apology) != nil) &&
  (istype(m.Payload, *shmsg.Message_EpochSecretKeyShare) ==> as(m.Payload, *shmsg.Message_EpochSecretKeyShare) != nil)

fn (*app.ShutterApp).deliverMessage(ap, msg, sender) returns (r) props A01 use nopanic nobytes
  requires wfApp(ap) && payloadOK(msg) && ap.EONCounter < 18446744073709551615
  modifies ap.ConfigVoting, ap.Configs, elems(ap.Configs), elems(ap.ConfigVoting.Candidates), ap.CheckTxState.Members, ap.StartedVotes, mapof(ap.StartedVotes), ap.EONCounter, mapof(ap.DKGMap), mapof(ap.EonStartVotings), allof(app.EonStartVoting), allmaps(map[common.Address]int), allelems(uint64), mapof(ap.BatchStates), allelems(app.DecryptionSignature), mapof(ap.Identities), allmaps(map[common.Address]struct{}), allmaps(map[app.SenderReceiverPair]struct{})
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [unknown messages are refused] (msg == nil || msg.Payload == nil) ==> r.Code != 0
  ensures [acts only for its signer: identities] forall a: common.Address :: a != sender ==> (a in ap.Identities <==> old(a in ap.Identities)) && ap.Identities[a] == old(ap.Identities[a])
  ensures [acts only for its signer: start votes] forall a: common.Address :: a != sender && a in ap.StartedVotes ==> old(a in ap.StartedVotes)
  ensures [acts only for its signer: configuration votes] forall a: common.Address :: a != sender && a in ap.ConfigVoting.Votes ==> old(a in ap.ConfigVoting.Votes)
  ensures [mempool counts stay] dom(ap.CheckTxState.TxCounts) == old(dom(ap.CheckTxState.TxCounts)) && vals(ap.CheckTxState.TxCounts) == old(vals(ap.CheckTxState.TxCounts))
  ensures [invariant] wfApp(ap)

define txRaw(tx) = b64dec(tx)
define txOK(tx) = b64ok(tx) && signerOK(txRaw(tx)) && pbOK(payloadOf(txRaw(tx)))
define txSigner(tx) = signerOf(txRaw(tx))
define txChain(tx) = pbChain(payloadOf(txRaw(tx)))
define txNonce(tx) = pbNonce(payloadOf(txRaw(tx)))

fn (app.ShutterApp).decodeTx(ap, tx) returns (signer, msg, err) props A01,A02 use nopanic
  modifies
  ensures [decodes iff encoding, signature and payload are good] (err == nil) <==> txOK(content(tx))
  ensures [signer, chain and nonce of exactly this transaction] err == nil ==> signer == txSigner(content(tx)) && msg != nil && fresh(msg) && content(msg.ChainId) == txChain(content(tx)) && msg.RandomNonce == txNonce(content(tx))
  ensures err == nil ==> payloadOK(msg.Msg)

define accepted(ap, tx) = txOK(tx) && txChain(tx) == ap.ChainID && !nonceUsed(ap.NonceTracker, txSigner(tx), txNonce(tx))

fn (*app.ShutterApp).DeliverTx(ap, req) returns (r) props A01 nopanic nobytes
  requires wfApp(ap) && ap.EONCounter < 18446744073709551615
  ensures [undecodable, foreign or replayed: refused without effect] !old(accepted(ap, content(req.Tx))) ==> r.Code != 0 && unchanged()
  ensures [uses up exactly its signer and nonce] old(accepted(ap, content(req.Tx))) ==> forall a: common.Address, n: uint64 :: nonceUsed(ap.NonceTracker, a, n) <==> (old(nonceUsed(ap.NonceTracker, a, n)) || (a == txSigner(content(req.Tx)) && n == txNonce(content(req.Tx))))
  ensures [acts only for its signer: identities] forall a: common.Address :: a != txSigner(content(req.Tx)) ==> (a in ap.Identities <==> old(a in ap.Identities)) && ap.Identities[a] == old(ap.Identities[a])
  ensures [acts only for its signer: start votes] forall a: common.Address :: a != txSigner(content(req.Tx)) && a in ap.StartedVotes ==> old(a in ap.StartedVotes)
  ensures [acts only for its signer: configuration votes] forall a: common.Address :: a != txSigner(content(req.Tx)) && a in ap.ConfigVoting.Votes ==> old(a in ap.ConfigVoting.Votes)
  ensures [mempool counts and pending nonces stay] dom(ap.CheckTxState.TxCounts) == old(dom(ap.CheckTxState.TxCounts)) && vals(ap.CheckTxState.TxCounts) == old(vals(ap.CheckTxState.TxCounts)) && forall a: common.Address, n: uint64 :: nonceUsed(ap.CheckTxState.NonceTracker, a, n) <==> old(nonceUsed(ap.CheckTxState.NonceTracker, a, n))
  ensures [chain id stays] ap.ChainID == old(ap.ChainID)
  ensures [invariant] wfApp(ap)

fn (*app.ShutterApp).CheckTx(ap, req) returns (r) props A02 nopanic nobytes
  requires wfApp(ap)
  requires forall a: common.Address :: ap.CheckTxState.TxCounts[a] >= 0 && ap.CheckTxState.TxCounts[a] <= 10
  ensures [admitted iff] r.Code == 0 <==> old(accepted(ap, content(req.Tx)) && (len(ap.CheckTxState.Members) == 0 || ap.CheckTxState.Members[txSigner(content(req.Tx))]) && ap.CheckTxState.TxCounts[txSigner(content(req.Tx))] < 10 && !nonceUsed(ap.CheckTxState.NonceTracker, txSigner(content(req.Tx)), txNonce(content(req.Tx))))
  ensures [refused changes nothing] r.Code != 0 ==> unchanged()
  ensures [counted] r.Code == 0 ==> forall a: common.Address :: ap.CheckTxState.TxCounts[a] == old(ap.CheckTxState.TxCounts[a]) + ite(a == txSigner(content(req.Tx)), 1, 0)
  ensures [nonce recorded] r.Code == 0 ==> forall a: common.Address, n: uint64 :: nonceUsed(ap.CheckTxState.NonceTracker, a, n) <==> (old(nonceUsed(ap.CheckTxState.NonceTracker, a, n)) || (a == txSigner(content(req.Tx)) && n == txNonce(content(req.Tx))))
  ensures [delivered nonces stay] forall a: common.Address, n: uint64 :: nonceUsed(ap.NonceTracker, a, n) <==> old(nonceUsed(ap.NonceTracker, a, n))
  ensures [count limit] forall a: common.Address :: ap.CheckTxState.TxCounts[a] >= 0 && ap.CheckTxState.TxCounts[a] <= 10
  ensures [invariant] wfApp(ap)

fn (*app.CheckTxState).Reset(s) props A02 use nopanic
  requires s != nil
  modifies s.TxCounts, s.NonceTracker
  ensures [counts and nonces cleared] fresh(s.TxCounts) && s.TxCounts != nil && ref(s.TxCounts) < allocated && (forall a: common.Address :: s.TxCounts[a] == 0 && !(a in s.TxCounts)) && fresh(s.NonceTracker) && wfNT(s.NonceTracker) && fresh(s.NonceTracker.RandomNonces) && (forall a: common.Address :: !(a in s.NonceTracker.RandomNonces)) && (forall a: common.Address, n: uint64 :: !nonceUsed(s.NonceTracker, a, n))

fn (*app.ShutterApp).PersistToDisk(ap) returns (err) props K04 use nopanic
  requires ap != nil && ap.Gobpath == livePath[2] && pathsApart()
  modifies ap.LastSaved, lastFile[0], liveVal[2], liveIDs[2], liveActions[2], liveHashes[2], liveNext[2], liveState[2], livePlan[2], liveCounter[2]
  ensures [the file holds this application state] err == nil ==> istype(liveVal[2], *app.ShutterApp) && as(liveVal[2], *app.ShutterApp) == ap

fn (*app.ShutterApp).maybePersistToDisk(ap) returns (err) props K04 use nopanic
  requires ap != nil && (ap.Gobpath == "" || ap.Gobpath == livePath[2]) && pathsApart()
  modifies ap.LastSaved, lastFile[0], liveVal[2], liveIDs[2], liveActions[2], liveHashes[2], liveNext[2], liveState[2], livePlan[2], liveCounter[2]

fn (*app.ShutterApp).Commit(ap) returns (r) props A02,K04 nopanic
  requires wfApp(ap) && (ap.Gobpath == "" || ap.Gobpath == livePath[2]) && pathsApart()
  ensures [counts and pending nonces cleared] (forall a: common.Address :: ap.CheckTxState.TxCounts[a] == 0) && (forall a: common.Address, n: uint64 :: !nonceUsed(ap.CheckTxState.NonceTracker, a, n))
  ensures [members and delivered nonces stay] ap.CheckTxState == old(ap.CheckTxState) && ap.CheckTxState.Members == old(ap.CheckTxState.Members) && dom(ap.CheckTxState.Members) == old(dom(ap.CheckTxState.Members)) && vals(ap.CheckTxState.Members) == old(vals(ap.CheckTxState.Members)) && (forall a: common.Address, n: uint64 :: nonceUsed(ap.NonceTracker, a, n) <==> old(nonceUsed(ap.NonceTracker, a, n)))
  ensures [invariant] wfApp(ap)
