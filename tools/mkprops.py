#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (run by hand when the property list changes)."""
import json
SM='shuttermint/'; SL='shlib/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d['anchors']['observe_at']=obs
    P.append(d)

# ---------------------------------------------------------------- chain application
p('A01','Delivered transactions are never replayed and are bound to the chain',
 "A transaction delivered in a block takes effect only if it decodes, carries this chain's id and a random nonce its signer has not used in an earlier delivered transaction; otherwise it gets an error response and changes nothing. A transaction that passes these checks uses up exactly its (signer, nonce) pair, for good, whatever happens to its payload.",
 ['inputs','histories'],'every transaction byte string, every reachable application state and every earlier history of used nonces',
 'The tests deliver one or two hand-made nonces; the claim is over every history of (signer, nonce) pairs and every kind of malformed transaction.',
 [SM+'app/app.go',SM+'app/noncetracker.go'],
 [('DeliverTx gate','app.go DeliverTx'),('nonce tracker','noncetracker.go Check/Add')],['DeliverTx response code','state after DeliverTx'])
p('A02','Mempool admission: known keypers only, ten transactions per sender, no reuse',
 "A transaction is admitted to the mempool only if it decodes, carries this chain's id, its signer is a member (when any members are known), the signer has had fewer than ten transactions admitted since the last commit, and its random nonce is unused both in delivered and in already admitted transactions; and every such transaction is admitted. A refused transaction changes nothing, an admitted one counts once and uses its nonce; a commit resets counts and pending nonces but never the members, and the members are exactly all keypers of all accepted configurations.",
 ['inputs','histories'],'every transaction, every reachable mempool state, every number of admitted transactions and every set of configurations',
 'Unit tests sample one sender and a handful of transactions; the limit, the reset and the nonce interplay must hold for every history.',
 [SM+'app/checktx.go',SM+'app/app.go',SM+'app/noncetracker.go'],
 [('admission','checktx.go AddTx'),('members','checktx.go SetMembers, app.go updateCheckTxMembers'),('reset','checktx.go Reset, app.go Commit')])
p('A03','A configuration is added only by threshold votes of the current keypers',
 "A new batch configuration is accepted only when at least the threshold of keypers of the last configuration have voted for exactly that configuration; each keyper has one vote per ballot, and a second vote, a vote by a non-keyper or a vote for an inadmissible configuration is rejected and changes no vote (repeating the current configuration succeeds without effect). Accepted configurations are valid, have a start batch not lower and an index strictly higher than the previous one, are appended unchanged after the existing ones, and open a fresh ballot.",
 ['inputs','histories'],'every configuration message, sender and voting history',
 'Vote counting over maps with any number of keypers and candidates: tests use three keypers and two candidates.',
 [SM+'app/configvoting.go',SM+'app/voting.go',SM+'app/app.go',SM+'keyper/shutterevents/batchconfig.go'],
 [('vote','configvoting.go AddVote/Outcome'),('admissibility','app.go checkConfig, batchconfig.go EnsureValid'),('append','app.go addConfig')])
p('A04','Eons start by threshold vote or config change, one new numbered instance each',
 "A new eon is started only when a new configuration with a different keyper set or threshold is accepted, or when at least the threshold of the keypers of the configuration in force at the voted batch have voted for the same start batch; votes of others are rejected. Every start increments the eon counter by exactly one, registers one fresh key-generation instance under the new number holding that configuration and no recorded messages, leaves earlier instances alone, and clears the ballot that triggered it.",
 ['inputs','histories'],'every vote, sender, configuration list and voting history',
 'Tests cover single outcomes; the count must be right for every vote map and iteration order, and eon numbers must never be reused in any history.',
 [SM+'app/eonvoting.go',SM+'app/voting.go',SM+'app/app.go',SM+'app/dkg.go'],
 [('vote','eonvoting.go AddVote/Outcome'),('start','app.go maybeStartEon, StartDKG, ShouldStartDKG'),('instance','dkg.go NewDKGInstance')])
p('A05','DKG messages are registered at most once, only by and about keypers of the eon',
 "A key-generation message is accepted exactly when its eon is the instance's eon, its sender is a keyper of the instance, every keyper it names is a keyper other than the sender, and no message of the same kind from that sender (for evaluations: from that sender to any of its receivers) was accepted before. Acceptance records exactly that message's slot; rejection records nothing.",
 ['inputs','histories'],'every message of the four kinds, any number of named keypers, every instance state',
 'Tests try single duplicates with few receivers; rejection must leave the registry untouched at every position in the receiver list.',
 [SM+'app/dkg.go',SM+'keyper/shutterevents/batchconfig.go'],
 [('registry','dkg.go RegisterPolyEvalMsg, RegisterPolyCommitmentMsg, RegisterAccusationMsg, RegisterApologyMsg'),('membership','batchconfig.go IsKeyper/KeyperIndex')])
p('A06','Chain message parsing accepts only well-formed messages and keeps their content',
 "Parsing a key-generation or configuration message off the wire succeeds exactly when every address in it is twenty bytes long, paired lists have equal length and addressed keypers are pairwise distinct; the result carries the signer as sender and every listed item in the original order. Malformed messages give an error, never a crash or a truncated result.",
 ['inputs'],'every message content and list length',
 'Tests have one malformed example per kind; order, completeness and uniqueness must hold for every length.',
 [SM+'app/messages.go',SM+'medley/medley.go',SM+'keyper/shutterevents/batchconfig.go'],
 [('parsers','messages.go Parse*Msg, validateAddress'),('uniqueness','medley.go EnsureUniqueAddresses')])
p('A07','One decryption signature per keyper and batch, from keypers of that batch only',
 "A decryption signature is accepted exactly when its sender is a keyper of the batch's configuration (the one in force at the batch when its first signature was accepted) and has not signed that batch before. Acceptance appends it to the batch's signatures keeping all earlier ones; rejection changes nothing, and other batches are never affected.",
 ['inputs','histories'],'every sender, batch and signature history',
 'Tests add two signatures; duplicates must be found at any position, for every batch.',
 [SM+'app/batch_state.go',SM+'app/app.go'],
 [('append','batch_state.go AddDecryptionSignature'),('lookup','app.go getBatchState, deliverDecryptionSignature, getConfig')])
p('A08','Validator updates transform the old validator set into the new one',
 "Each keyper of the active configuration contributes ten units of power to its registered validator key, or to the placeholder key until it has checked in. The updates sent to consensus list exactly the keys whose power changed, with removed keys at zero, each key once and in an order that depends only on the keys, so that applying them to the old set yields the new set.",
 ['inputs','histories'],'every pair of validator sets, keyper list and identity map, every map iteration order',
 'Map iteration order is random and sets are unbounded; tests use two or three keys.',
 [SM+'app/powermap.go',SM+'app/app.go'],
 [('powermap','app.go makePowermap, CurrentValidators'),('diff','powermap.go DiffPowermaps, ValidatorUpdates, SortValidators, MakePowermap')])
p('A09','Keypers check in once, and configurations start by threshold in order',
 "A check-in is accepted exactly once per address, only from a keyper of some configuration and only with a well-formed validator key and encryption key, and registers exactly that validator key. A configuration not yet marked started is marked so at a block end exactly when at least the previous configuration's threshold of its keypers reported having seen it, and validator handover happens at a block end exactly when it is started and at least its threshold of keypers have checked in; neither mark is ever taken back.",
 ['inputs','histories'],'every message, sender and block history',
 'Histories of votes and check-ins over several blocks are unbounded; tests run one fixed sequence.',
 [SM+'app/app.go'],
 [('check-in','app.go deliverCheckIn, isKeyper'),('start votes','app.go deliverBatchConfigStarted'),('block end','app.go EndBlock, countCheckedInKeypers')])

# ---------------------------------------------------------------- keyper
p('K01','Batch periods partition the main chain without gaps or overlap',
 "Under a batch configuration with positive span every block from its start block on belongs to exactly one batch period: the batch of a block is the one whose period contains it, periods are span blocks long and consecutive periods meet exactly. A batch index before the configuration's start is refused (the lookup panics) rather than wrapped around.",
 ['inputs','configurations'],'every block number, batch index, start and span within 64-bit range',
 'Integer division boundaries and wrap-around over the full 64-bit range; tests check a few points.',
 [SM+'contract/config.go'],
 [('arithmetic','config.go BatchStartBlock, BatchEndBlock, BatchIndex, IsActive')])
p('K02','The configuration in force is the latest one that started',
 "For any list of configurations ordered by start, the configuration selected for a batch index or block number is the last one whose start is not after it; where none has started yet, none (an error or the empty configuration) is reported. Keyper membership and keyper index lookups return the position of the given address in that configuration, or report absence when it is not listed.",
 ['inputs','configurations'],'every ordered configuration list and every batch index or block number',
 'Searches over lists of any length, with equal starts; tests use at most three configurations.',
 [SM+'keyper/observe/mainchain.go',SM+'keyper/observe/shutter.go',SM+'app/app.go',SM+'contract/config.go',SM+'keyper/shutterevents/batchconfig.go'],
 [('main chain','mainchain.go ConfigIndexForBatchIndex/ActiveConfigIndex'),('chain app','app.go getConfig'),('shutter','shutter.go FindBatchConfigByBatchIndex'),('membership','config.go KeyperIndex/IsKeyper')])
p('K03','DKG phase is a function of the block height since the eon started',
 "The key-generation phase at a block height depends only on the height relative to the eon's start and the three phase lengths: off before the start, then dealing, accusing and apologising for exactly their configured lengths, then finalized for ever; it never moves backwards as height grows.",
 ['inputs','configurations'],'every height, start and phase length',
 'Boundaries over all heights and lengths, which tests sample at a few values.',
 [SM+'keyper/decide.go',SM+'keyper/keyper.go'],
 [('schedule','decide.go PhaseLength.getPhaseAtHeight')])
p('K04','State saves are atomic and complete, and precede acting on them',
 "Saving the chain application's state, a keyper's state or its pending actions replaces the saved file in one step by a complete copy of exactly the current state: whatever write fails and wherever the process stops, the file holds either the complete old or the complete new state. A keyper saves its state together with the actions it decided on before any of them is handed out for execution, and a failed save is reported as an error.",
 ['crash_points','histories'],'every state, every failing step and every crash point of a save',
 'A test cannot stop a process between any two file-system steps; tests save and load once.',
 [SM+'keyper/keyper.go',SM+'keyper/fx/pending.go',SM+'app/app.go'],
 [('keyper state','keyper.go saveState, runActions, runOneStep'),('actions','pending.go save, RunActions'),('app','app.go PersistToDisk, maybePersistToDisk, Commit')])
p('K05','An epoch key is derived exactly when threshold verified shares arrived',
 "A keyper counts an epoch key share only if it verifies against its sender's public key share, comes from a known keyper and is the first from that sender for that epoch. The epoch key is computed from the counted shares exactly when their number reaches the threshold, and stays fixed afterwards; shares arriving later, repeatedly or invalidly never change it.",
 ['inputs','histories'],'every sequence of shares, senders, epochs and thresholds',
 'Arrival orders, duplicates and invalid shares form an unbounded history; tests send one fixed order.',
 [SM+'keyper/epochkg/epochkg.go'],
 [('collector','epochkg.go HandleEpochSecretKeyShare, addEpochSecretKeyShare, computeEpochSecretKey')])
p('K06','Epoch key shares are released for every closed batch once, and never earlier',
 "A keyper releases its epoch key share for a batch only when the batch's period is over at the main chain block it has observed, and not once the batch's execution timeout is about to be reached or its configuration is inactive. Each batch is looked at once; for each one that qualifies and whose share the keyper can compute (it is a keyper of the batch, holds a key for the batch's eon, and the epoch key is not known yet) exactly one message is planned, naming exactly that epoch and eon and carrying the keyper's own share for it; no other share is released. Actions planned earlier stay as they are.",
 ['inputs','histories'],'every chain state, schedule of configurations, eon and set of keys',
 'The release time depends on block numbers, spans and configuration changes that cannot be enumerated; no test covers the decision.',
 [SM+'keyper/decide.go',SM+'shmsg/messages.go'],
 [('decision','decide.go publishEpochSecretKeyShares, executionTimeoutReachedOrInactive'),('message','decide.go publishEpochSecretKeyShare, sendEpochSecretKeyShare, FindEKGByEon; shmsg/messages.go NewEpochSecretKeyShare')])
p('K07','Batches are executed in order, in time and with the agreed transactions',
 "The half steps a keyper plans to execute are consecutive, starting at the first one the main chain has not executed, at most ten at once, only for batches before the current one, and none while an earlier one of its own is pending; the last one planned is remembered as pending. A batch is executed only under an active configuration, by a keyper of it, after its period is over; the cipher part only before the execution timeout, with enough signatures unless it is empty, and with exactly the decrypted transactions and the hash of the encrypted batch; the plain part with exactly its plain transactions. The cipher part is skipped only after the timeout, and is skipped once half the timeout has passed again. A keyper waits at most half the execution timeout for the others: then it plans the plain part, and the cipher part if it is signed and not timed out. No configuration makes the decision fail.",
 ['inputs','histories'],'every chain state, configuration, half step and pending step',
 'Block arithmetic over arbitrary configurations and positions; tests have no case for most of it (a configuration without keypers crashed the keyper).',
 [SM+'keyper/decide.go'],
 [('planning','decide.go maybeExecuteBatch, getNumHalfStepsToExecute'),('half step','decide.go maybeExecuteHalfStep, executionDelay'),('actions','decide.go executeCipherBatch, executePlainBatch')])
p('K08','Appeals carry ordered, sufficient signer lists; accusations hit only misdeeds',
 "Only valid signatures by keypers of the batch over its hash are collected. An appeal is planned only for an open accusation whose executed batch hash is the one this keyper decrypted, and not twice; its signer indices strictly increase, each signature stands at its signer's index, in contract form, all are collected ones, and there are at least as many as the threshold of the batch's configuration. An accusation is planned only for an executed cipher half step whose batch hash differs from what this keyper decrypted, once per half step; every half step is looked at. Actions planned earlier stay as they are.",
 ['inputs','histories'],'every set of collected signatures, accusations and receipts',
 'Sorting and pairing must hold for every set of signers and iteration order; tests have none for this.',
 [SM+'keyper/decide.go',SM+'contract/signatures.go'],
 [('collecting','decide.go syncBatch, VerifySignature, AddSignature'),('ordering','decide.go getSortedDecryptionSignaturesWithIndices'),('planning','decide.go maybeAppeal, maybeAccuse')])
p('K10','Planned actions get unique, gap-free identities and are never lost',
 "Every action a keyper decides on is given a fresh identity one higher than the last, is pending from the moment it is recorded until it is completed, and completing or replaying other actions never drops or duplicates it. Pending actions are reported in identity order, and what has been recorded is on disk before it is acted on.",
 ['histories','crash_points'],'every sequence of recording, completing and reloading',
 'Interleavings of adding and finishing are unbounded; tests use a single short list.',
 [SM+'keyper/fx/pending.go'],
 [('ledger','pending.go')])
p('K11','Chain events are kept complete and in order by the keyper\'s view',
 "Applying a chain event to the keyper's view of the chain records exactly that event: nothing already known is dropped, reordered or altered, eons stay sorted, and an eon lookup for a batch returns the last eon starting at or before it. Dropping history below a height removes only events strictly below it and never any at or above it.",
 ['inputs','histories'],'every event, every reachable view and every cut-off height',
 'Insertions at any position of unbounded lists; tests insert in order.',
 [SM+'keyper/observe/shutter.go'],
 [('apply','shutter.go applyEvent'),('lookup','shutter.go FindEon'),('filter','shutter.go ApplyFilter')])
p('K12','A keyper checks in once and proposes each new configuration once',
 "A keyper plans to check in exactly when it is a keyper of some configuration known to shuttermint, has not checked in on shuttermint and has not planned to before; the message carries its own validator and encryption public keys. It plans to propose a configuration exactly when shuttermint knows a configuration, the main chain has the one following the last known to shuttermint, and it has not proposed that one or a later one before; the proposal is exactly the main chain's configuration of that index - start batch, threshold, keypers in order - for the own configuration contract, not marked as started. Actions planned earlier stay as they are.",
 ['inputs','histories'],'every pair of chain views and every keyper state',
 'Views of two chains advance independently; tests do not cover these decisions.',
 [SM+'keyper/decide.go',SM+'shmsg/messages.go'],
 [('decisions','decide.go shouldSendCheckIn, maybeSendCheckIn, maybeSendBatchConfig'),('messages','messages.go NewCheckIn, NewBatchConfig')])
p('K13','Chain events survive encoding: decoding what was encoded gives it back',
 "For every event type that the chain emits, decoding its encoded form at any height yields an event that agrees in every field the chain encodes, and decoding any other or malformed event gives an error, never a crash or a silently different event.",
 ['inputs'],'every event value and every attribute content',
 'Tests encode one sample per type.',
 [SM+'keyper/shutterevents/events.go',SM+'keyper/shutterevents/marshal.go'],
 [('codec','events.go MakeABCIEvent/make*, marshal.go')])
p('K14','Signed messages authenticate their exact content',
 "The signer recovered from a signed message is the address that signed exactly these message bytes, and the payload returned is exactly the bytes that were signed; anything too short or with a bad signature is rejected with an error.",
 ['inputs'],'every message, key and byte string',
 'Tests sign one message; every byte position and every length matter.',
 [SM+'shmsg/encode.go'],
 [('sign','encode.go SignMessage'),('recover','encode.go GetSigner, GetMessage')])
p('K15','Hashes cover every transaction of a batch in order',
 "The transaction hash and the decryption signature preimage of a batch depend on every listed transaction and every field, in order and unambiguously: two batches share a hash only if they agree in every transaction, batch index, batcher contract and cipher hash.",
 ['inputs'],'every list of transactions of any length and all field values',
 'Ordering and completeness over unbounded lists; tests hash one or two lists.',
 [SM+'keyper/decide.go'],
 [('chain of transaction hashes','decide.go transactionsHash'),('preimage','decide.go computeDecryptionSignatureHash, decryptTransactions')])
p('K18','Address list helpers are exact for every list',
 "Removing duplicates keeps the first occurrence of each address in order and nothing else; a uniqueness check fails exactly when some address occurs twice; a lookup returns the first position of the address and reports absence exactly when it is not in the list. None of them changes its input.",
 ['inputs'],'every list of addresses',
 'All lengths and duplicate positions; tests sample three lists.',
 [SM+'medley/medley.go'],
 [('helpers','medley.go DedupAddresses, EnsureUniqueAddresses, FindAddressIndex')])

# ---------------------------------------------------------------- cryptographic library
p('S01','Decrypting an encrypted message gives back the message',
 "For every message (including the empty one and any length), epoch, eon key and randomness, decrypting its encryption with the matching epoch secret key returns exactly that message. Padding is always inverted exactly, a padding length of zero or of more than a block is refused, and neither operation changes the caller's data.",
 ['inputs'],'every message of every length, every sigma, every key',
 'Lengths around the block boundary and every content must work; tests try a few lengths.',
 ['shlib/shcrypto/encryption.go','shlib/shcrypto/hash.go'],
 [('padding','encryption.go PadMessage, UnpadMessage'),('blocks','encryption.go DecryptBlocks, XORBlocks, computeC3, computeBlockKeys')])
p('S02','Decryption accepts only ciphertexts consistent with their content',
 "A ciphertext is decrypted to a message exactly if its first component is the generator raised to the hash of the recovered seed and that message, and the padding length is valid; otherwise decryption gives an error. It never returns a message other than the one its first component commits to and never crashes, however the ciphertext was tampered with, truncated or malformed.",
 ['inputs'],'every ciphertext and epoch key, honest or not',
 'Malformed ciphertexts are unbounded; tests flip a few fields.',
 ['shlib/shcrypto/encryption.go'],
 [('check','encryption.go Decrypt, Sigma')])
p('S03','Serialized keys and ciphertexts round-trip, malformed bytes are errors',
 "Decoding the encoding of any ciphertext, eon key, eon secret or public key share, epoch id, epoch key or key share, block or polynomial commitment yields an equal value. Byte strings of wrong length or that do not encode valid group elements are refused with an error, never a crash and never a partly filled value reported as success.",
 ['inputs'],'every value and every byte string',
 'Every length and every malformed encoding; tests decode honest encodings only.',
 ['shlib/shcrypto/encoding.go','shlib/shcrypto/feldman.go'],
 [('codec','encoding.go Marshal/Unmarshal, Gob*, TextUnmarshal; feldman.go GobEncode/GobDecode')])
p('S04','DKG accepts each message at most once, in time and well formed',
 "A key-generation participant moves through its phases strictly in order, each entered once. A commitment, evaluation, accusation or apology is accepted exactly when it is for this eon, no later than its phase, addressed to this participant (evaluations), well formed (a commitment of the agreed degree, an evaluation in the field) and the first of its kind for that sender (and counterpart), messages being about existing participants; acceptance stores exactly that item, and a rejected message changes nothing.",
 ['inputs','histories'],'every message in every state, any number of participants',
 'Message orders and participants are unbounded; tests run fixed happy and failing flows with three participants.',
 ['shlib/puredkg/puredkg.go'],
 [('handlers','puredkg.go HandlePolyCommitmentMsg, HandlePolyEvalMsg, HandleAccusationMsg, HandleApologyMsg'),('phases','puredkg.go setPhase, StartPhase*')])
p('S05','DKG accuses exactly the misbehaving dealers and disqualifies exactly the corrupt',
 "At the end of dealing a participant accuses exactly those other participants whose commitment or evaluation for it is missing or does not verify, and answers every accusation against itself with the true evaluation for the accuser. A dealer counts as corrupt exactly when its commitment is missing or some accusation against it was not answered by an apology that verifies.",
 ['inputs','histories'],'every set of received messages, any number of participants',
 'All subsets of missing, wrong and answered messages; tests cover single faults.',
 ['shlib/puredkg/puredkg.go'],
 [('accuse','puredkg.go StartPhase2Accusing'),('apologise','puredkg.go StartPhase3Apologizing'),('verdict','puredkg.go isCorrupt, verifyPolyEval, polyEval')])
p('S06','All participants derive one consistent key set from the same messages',
 "The result of a key generation sums commitments and evaluations over exactly the dealers that are not corrupt, so that every public key share equals the public counterpart of that keyper's secret share, and is refused with an error when fewer than the threshold of dealers are qualified. An apology's evaluation replaces a missing or disputed one.",
 ['inputs','histories'],'every final state of a key generation',
 'Every subset of qualified dealers; tests check honest runs and one corrupt dealer.',
 ['shlib/puredkg/puredkg.go','shlib/shcrypto/keys.go'],
 [('result','puredkg.go ComputeResult'),('sums','keys.go ComputeEonPublicKey, ComputeEonPublicKeyShare, ComputeEonSecretKeyShare')])
p('S07','Secret polynomials and their commitments agree everywhere',
 "Evaluating a secret polynomial at a keyper's point gives the value of that polynomial modulo the group order, and its commitment evaluated at the same point is the generator raised to that value, for every degree and every keyper. A received evaluation verifies exactly when it is the value committed to and the commitment has the expected degree.",
 ['inputs'],'every polynomial, degree and evaluation point',
 'Horner evaluation over any degree and any coefficients; tests use a few small degrees.',
 ['shlib/shcrypto/feldman.go'],
 [('polynomial','feldman.go Eval, EvalForKeyper, KeyperX, NewPolynomial'),('commitment','feldman.go Gammas, Pi, VerifyPolyEval, ValidEval')])
p('S08','Any threshold of epoch key shares reconstructs the epoch key',
 "Combining the epoch key shares of exactly a threshold of distinct keypers yields the epoch id raised to the eon secret key, whichever keypers they are and in whichever order; with any other number of shares or mismatched indices an error is returned. Each share is the epoch id raised to the keyper's secret share.",
 ['inputs'],'every threshold and subset of keypers',
 'All subsets and orders; tests pick one subset.',
 ['shlib/shcrypto/keys.go'],
 [('interpolation','keys.go lagrangeCoefficient, ComputeEpochSecretKey'),('share','keys.go ComputeEpochSecretKeyShare')])
p('S09','Epoch key shares verify exactly when made with the right secret share',
 "A share verifies against a keyper's public key share and an epoch id exactly when it is that epoch id raised to the secret behind that public share; the epoch id raised to the eon secret key always verifies as epoch key, and a key that verifies gives back the test message encrypted to this epoch. Invalid shares are never accepted.",
 ['inputs'],'every share, key and epoch',
 'A pairing equation over the whole group; tests try one honest and one wrong share.',
 ['shlib/shcrypto/keys.go'],
 [('verify','keys.go VerifyEpochSecretKeyShare, VerifyEpochSecretKey')])
p('S10','Shuffling is a deterministic permutation',
 "Shuffling a batch of transactions returns a permutation of its input determined only by the key and the input, for every length; the caller's list is not modified.",
 ['inputs'],'every list and key',
 'Every length including 0 and 1; tests shuffle a fixed list.',
 ['shlib/shcrypto/shuffle.go'],
 [('shuffle','shuffle.go Shuffle')])
p('S11','Aggregate signatures verify exactly for the keys and message signed',
 "A signature verifies under a public key exactly when made with the matching secret key over that message; an aggregate of signatures verifies under the aggregate of the matching keys. Decoding the encoding of a key or signature yields an equal one, and malformed bytes are refused with an error.",
 ['inputs'],'every key, message, signature list and byte string',
 'Lists of every length and malformed encodings; tests use two or three signers.',
 ['shlib/shcrypto/shbls/shbls.go','shlib/shcrypto/shbls/encoding.go'],
 [('signatures','shbls.go Sign, Verify, Aggregate*'),('codec','encoding.go')])

with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
