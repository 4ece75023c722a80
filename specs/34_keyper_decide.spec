// Hashes over batches (K15) and signer lists for the main chain (K08).
package binary "encoding/binary"
package observe "github.com/shutter-network/shutter/shuttermint/keyper/observe"
package fx "github.com/shutter-network/shutter/shuttermint/keyper/fx"
package reflect "reflect"
package keyper "github.com/shutter-network/shutter/shuttermint/keyper"

declare zeros(Int): Str needs zeros_ax
smt zeros_ax
  (assert (forall ((n Int)) (! (=> (>= n 0) (= (strlen (zeros n)) n)) :pattern ((zeros n)))))
  (assert (forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (strat (zeros n) i) 0)) :pattern ((strat (zeros n) i)))))

// txc is the hash chain of a list of transactions: each link covers one transaction and the link before it
declare txc(Int): Str
define chainOf(txs) = txc(0) == zeros(32) && forall i: int {txc(i)} :: 0 <= i && i < len(txs) ==> txc(i + 1) == hashOf(1, strcat(content(txs[i]), txc(i)))
fn keyper.transactionsHash(txs) returns (r) props K15 use nopanic
  modifies
  loopinv ($n: int, $h: []byte) $h != nil && fresh($h) && len($h) == 32 && (chainOf(txs) ==> content($h) == txc($n))
  ensures [every transaction in order] chainOf(txs) ==> content(r) == txc(len(txs))
  ensures fresh(r) && len(r) == 32

// a link fixes its transaction and the link before it (the argument of the induction over the length of two lists)
lemma linkFixesAll(x: string, g: string, y: string, h: string) props K15
  requires strlen(g) == 32 && strlen(h) == 32
  requires hashOf(1, strcat(x, g)) == hashOf(1, strcat(y, h)) ==> strcat(x, g) == strcat(y, h)
  ensures [collision-free links agree in everything] hashOf(1, strcat(x, g)) == hashOf(1, strcat(y, h)) ==> x == y && g == h

opaque bytes.Buffer Str emptystr
extern binary.Write(w, order, data) returns (err)
  requires istype(w, *bytes.Buffer) && istype(data, uint64)
  modifies *as(w, *bytes.Buffer)
  ensures err == nil && *as(w, *bytes.Buffer) == strcat(old(*as(w, *bytes.Buffer)), be64(as(data, uint64)))
extern (*bytes.Buffer).WriteTo(b, w) returns (n, err)
  requires w != nil && ifref(w) != 0
  modifies *b, hashData[ifref(w)]
  ensures err == nil && *b == emptystr && hashData[ifref(w)] == strcat(old(hashData[ifref(w)]), old(*b))
extern (common.Address).Bytes(a) returns (b)
  ensures fresh(b) && content(b) == content(a)
extern (common.Hash).Bytes(h) returns (b)
  ensures fresh(b) && content(b) == content(h)
define preimage(d, b, c, t) = strcat(strcat(strcat(strcat(content(keyper.hashPrefix), content(d.Config.BatcherContractAddress)), be64(b)), c), t)
fn (*keyper.Decider).computeDecryptionSignatureHash(d, b, c, t) returns (r) props K15 use nopanic
  requires d != nil && ref(keyper.hashPrefix) < allocated
  modifies
  ensures [covers prefix, contract, batch index, cipher hash and transactions, in order] content(r) == hashOf(1, preimage(d, b, content(c), content(t)))
  ensures fresh(r)
lemma preimageFixesAll(d: *keyper.Decider, e: *keyper.Decider, b: uint64, c: string, t: string, b2: uint64, c2: string, t2: string) props K15
  requires d != nil && e != nil && strlen(c) == 32 && strlen(c2) == 32
  ensures [fields agree] preimage(d, b, c, t) == preimage(e, b2, c2, t2) ==> content(d.Config.BatcherContractAddress) == content(e.Config.BatcherContractAddress) && b == b2 && c == c2 && t == t2

extern (*observe.Batch).DecryptTransactions(b, key) returns (r)
  ensures r == nil || (fresh(r) && ref(r) < allocated)
fn (*keyper.Decider).decryptTransactions(d, key, epoch) props K15
  requires d != nil && d.State != nil && d.State.Batches != nil && d.MainChain != nil && ref(keyper.hashPrefix) < allocated && key != nil
  requires forall b: uint64 :: b in d.MainChain.Batches ==> d.MainChain.Batches[b] != nil
  modifies mapof(d.State.Batches)
  ensures [the record of the batch] d.State.Batches[epoch] != nil && fresh(d.State.Batches[epoch]) && epoch in d.State.Batches && d.State.Batches[epoch].BatchIndex == epoch
  ensures [hash of the decrypted transactions] chainOf(d.State.Batches[epoch].DecryptedTransactions) ==> content(d.State.Batches[epoch].DecryptedBatchHash) == txc(len(d.State.Batches[epoch].DecryptedTransactions))
  ensures [hash to sign] content(d.State.Batches[epoch].DecryptionSignatureHash) == hashOf(1, preimage(d, epoch, ite(epoch in d.MainChain.Batches, content(d.MainChain.Batches[epoch].EncryptedBatchHash), zeros(32)), content(d.State.Batches[epoch].DecryptedBatchHash)))
  ensures [no signatures yet] d.State.Batches[epoch].VerifiedSignatures == nil
  ensures [others stay] forall b: uint64 :: b != epoch ==> (b in d.State.Batches <==> old(b in d.State.Batches)) && d.State.Batches[b] == old(d.State.Batches[b])

// ---- signer lists (K08)
define signedBy(h, sig, a) = sigOK(content(h), content(sig)) && len(sig) == 65 && pkAddr(sigRecover(content(h), content(sig))) == a
fn (*keyper.Batch).VerifySignature(b, sender, sig) returns (r) props K08 use nopanic
  requires b != nil
  modifies
  ensures [signed by the sender over this batch] r <==> signedBy(b.DecryptionSignatureHash, sig, sender)
fn (*keyper.Batch).AddSignature(b, sender, sig) props K08 nopanic
  requires b != nil
  modifies b.VerifiedSignatures, mapof(b.VerifiedSignatures)
  ensures [recorded] sender in b.VerifiedSignatures && b.VerifiedSignatures[sender] == sig && b.VerifiedSignatures != nil
  ensures [same record] b.VerifiedSignatures == old(b.VerifiedSignatures) || (old(b.VerifiedSignatures) == nil && fresh(b.VerifiedSignatures))
  ensures [others stay] forall a: common.Address :: a != sender ==> (a in b.VerifiedSignatures <==> old(a in b.VerifiedSignatures)) && (a in b.VerifiedSignatures ==> b.VerifiedSignatures[a] == old(b.VerifiedSignatures[a]))
// every collected signature is valid over this batch; it is never written to afterwards
define verifiedAll(b) = forall a: common.Address {a in b.VerifiedSignatures} :: a in b.VerifiedSignatures ==> signedBy(b.DecryptionSignatureHash, b.VerifiedSignatures[a], a) && ref(b.VerifiedSignatures[a]) < allocated
define signersKnown(b, c) = forall a: common.Address {a in b.VerifiedSignatures} :: a in b.VerifiedSignatures ==> listed(c.Keypers, a)

fn contract.SignatureToContractFormat(sig) returns (c) props K08 use nopanic
  requires len(sig) == 65
  modifies
  ensures [a copy with the recovery id moved by 27] fresh(c) && ref(c) < allocated && len(c) == 65 && c[64] == (sig[64] + 27) % 256 && forall i: int :: 0 <= i && i < 64 ==> c[i] == sig[i]
define contractForm(c, sig) = len(c) == 65 && c[64] == (sig[64] + 27) % 256 && forall i: int :: 0 <= i && i < 64 ==> c[i] == sig[i]
fn contract.SignaturesToContractFormat(sigs) returns (cs) props K08 use nopanic
  requires forall i: int :: 0 <= i && i < len(sigs) ==> len(sigs[i]) == 65 && ref(sigs[i]) < allocated
  modifies
  loopinv ($n: int, $c: [][]byte) $c != nil && fresh($c) && len($c) == $n && forall i: int :: 0 <= i && i < $n ==> contractForm($c[i], sigs[i]) && ref($c[i]) < allocated && fresh($c[i])
  ensures [same order] len(cs) == len(sigs) && forall i: int :: 0 <= i && i < len(sigs) ==> contractForm(cs[i], sigs[i])
  ensures fresh(cs) && ref(cs) < allocated && forall i: int :: 0 <= i && i < len(sigs) ==> fresh(cs[i]) && ref(cs[i]) < allocated

fn (*keyper.Decider).getSortedDecryptionSignaturesWithIndices(d, b) returns (sigs, idx, err) props K08 use
  requires d != nil && d.MainChain != nil && b != nil && verifiedAll(b)
  maypanic [no active configuration] !(exists i: int :: lastByBatch(d.MainChain, b.BatchIndex, i) && d.MainChain.BatchConfigs[i].BatchSpan > 0)
  modifies
  loopinv forall a: common.Address :: visited[a] ==> a in b.VerifiedSignatures
  loopinv ($s: []keyper.SigAndIndex, $c: contract.BatchConfig) ($s != nil && fresh($s)) && forall j: int :: 0 <= j && j < len($s) ==> $s[j].index < len($c.Keypers) && visited[$c.Keypers[$s[j].index]] && $s[j].signature == b.VerifiedSignatures[$c.Keypers[$s[j].index]]
  loopinv ($s: []keyper.SigAndIndex) len($s) == nvisited
  loopinv ($s: []keyper.SigAndIndex) forall i: int, j: int :: 0 <= i && i < j && j < len($s) ==> $s[i].index != $s[j].index
  loopinv ($s: []keyper.SigAndIndex, $n: int, $g: [][]byte, $i: []uint64) $g != nil && $i != nil && fresh($g) && fresh($i) && len($g) == $n && len($i) == $n && forall j: int :: 0 <= j && j < $n ==> $g[j] == $s[j].signature && $i[j] == $s[j].index
  ensures [signers in strictly increasing order] err == nil ==> len(idx) == len(sigs) && forall i: int, j: int :: 0 <= i && i < j && j < len(idx) ==> idx[i] < idx[j]
  ensures [each signature belongs to the keyper at its index] err == nil ==> (forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: lastByBatch(d.MainChain, b.BatchIndex, k) ==> (forall j: int :: 0 <= j && j < len(idx) ==> idx[j] < len(d.MainChain.BatchConfigs[k].Keypers) && d.MainChain.BatchConfigs[k].Keypers[idx[j]] in b.VerifiedSignatures && sigs[j] == b.VerifiedSignatures[d.MainChain.BatchConfigs[k].Keypers[idx[j]]]))
  ensures [at least the threshold] err == nil ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: lastByBatch(d.MainChain, b.BatchIndex, k) ==> len(idx) >= d.MainChain.BatchConfigs[k].Threshold
  ensures err == nil ==> fresh(sigs) && fresh(idx) && ref(sigs) < allocated && ref(idx) < allocated && forall j: int :: 0 <= j && j < len(sigs) ==> ref(sigs[j]) < allocated && len(sigs[j]) == 65

fn (*keyper.Decider).syncBatch(d, b) props K08
  requires d != nil && d.MainChain != nil && d.Shutter != nil && b != nil && b.DecryptionSignatureIndex >= 0 && verifiedAll(b)
  requires forall n: uint64 :: n in d.Shutter.Batches ==> d.Shutter.Batches[n] != nil
  maypanic [no active configuration] !(exists i: int :: lastByBatch(d.MainChain, b.BatchIndex, i) && d.MainChain.BatchConfigs[i].BatchSpan > 0)
  modifies b.VerifiedSignatures, mapof(b.VerifiedSignatures), b.DecryptionSignatureIndex
  loopinv b.VerifiedSignatures == old(b.VerifiedSignatures) || (old(b.VerifiedSignatures) == nil && fresh(b.VerifiedSignatures))
  loopinv verifiedAll(b) && (forall a: common.Address {a in b.VerifiedSignatures} :: old(a in b.VerifiedSignatures) ==> a in b.VerifiedSignatures && b.VerifiedSignatures[a] == old(b.VerifiedSignatures[a]))
  loopinv ($c: contract.BatchConfig) forall a: common.Address {a in b.VerifiedSignatures} :: a in b.VerifiedSignatures && !old(a in b.VerifiedSignatures) ==> listed($c.Keypers, a)
  ensures [only valid signatures over this batch are collected] verifiedAll(b)
  ensures [collected signatures stay] forall a: common.Address :: old(a in b.VerifiedSignatures) ==> a in b.VerifiedSignatures && b.VerifiedSignatures[a] == old(b.VerifiedSignatures[a])
  ensures [only from keypers of the batch] forall a: common.Address :: a in b.VerifiedSignatures && !old(a in b.VerifiedSignatures) ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: lastByBatch(d.MainChain, b.BatchIndex, k) ==> listed(d.MainChain.BatchConfigs[k].Keypers, a)

opaque reflect.Value Int zero
extern reflect.ValueOf(i) returns (v)
  modifies
extern (reflect.Value).Kind(v) returns (k)
  modifies
fn (*keyper.Decider).addAction(d, a) props K08
  requires d != nil
  modifies d.Actions, elems(d.Actions)
  maypanic [not a pointer] true
  ensures [own list] ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  ensures [appended] len(d.Actions) == old(len(d.Actions)) + 1 && d.Actions[old(len(d.Actions))] == a && ref(d.Actions) < allocated
  ensures [earlier actions stay] forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])

fn (*keyper.Decider).syncPendingAppeals(d) props K08 nopanic
  requires d != nil && d.State != nil && d.MainChain != nil
  requires forall h: uint64 :: h in d.MainChain.Accusations ==> d.MainChain.Accusations[h] != nil
  modifies mapof(d.State.PendingAppeals)
  loopinv forall h: uint64 :: h in d.State.PendingAppeals ==> old(h in d.State.PendingAppeals)
  ensures [nothing new becomes pending] forall h: uint64 :: h in d.State.PendingAppeals ==> old(h in d.State.PendingAppeals)

define strictOrder(l) = forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < j && j < len(l) ==> l[i] < l[j]
define authOf(d, i) = as(d.Actions[i], *fx.Appeal).Authorization
define isAppeal(d, i) = istype(d.Actions[i], *fx.Appeal) && as(d.Actions[i], *fx.Appeal) != nil && ref(authOf(d, i).SignerIndices) < allocated && ref(authOf(d, i).Signatures) < allocated
define newAction(d, i, n) = n <= i && i < len(d.Actions)
define inForceSigners(d, l, h, sigs) = forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: lastByBatch(d.MainChain, h / 2, k) ==> len(l) >= d.MainChain.BatchConfigs[k].Threshold
define knownSigner(d, l, h, sigs) = forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: lastByBatch(d.MainChain, h / 2, k) ==> (forall j: int {l[j]} :: 0 <= j && j < len(l) ==> l[j] < len(d.MainChain.BatchConfigs[k].Keypers) && d.MainChain.BatchConfigs[k].Keypers[l[j]] in d.State.Batches[h / 2].VerifiedSignatures && ref(sigs[j]) < allocated && contractForm(sigs[j], d.State.Batches[h / 2].VerifiedSignatures[d.MainChain.BatchConfigs[k].Keypers[l[j]]]))
define sameBatchHash(d, bh, h) = len(d.State.Batches[h / 2].DecryptedBatchHash) == 32 && content(d.State.Batches[h / 2].DecryptedBatchHash) == content(d.MainChain.CipherExecutionReceipts[h].BatchHash) && forall j: int :: 0 <= j && j < 32 ==> bh[j] == d.State.Batches[h / 2].DecryptedBatchHash[j]
define toAppeal(d, h) = h in d.MainChain.Accusations && !d.MainChain.Accusations[h].Appealed && h in d.State.PendingAppeals && h in d.MainChain.CipherExecutionReceipts && (h / 2) in d.State.Batches
fn (*keyper.Decider).maybeAppeal(d) props K08
  requires d != nil && d.State != nil && d.MainChain != nil && d.State.PendingAppeals != nil
  requires forall h: uint64 :: h in d.MainChain.Accusations ==> d.MainChain.Accusations[h] != nil && d.MainChain.Accusations[h].HalfStep == h
  requires forall h: uint64 :: h in d.MainChain.CipherExecutionReceipts ==> d.MainChain.CipherExecutionReceipts[h] != nil
  requires forall b: uint64 :: b in d.State.Batches ==> d.State.Batches[b] != nil && d.State.Batches[b].BatchIndex == b && ref(d.State.Batches[b].DecryptionSignatureHash) < allocated && ref(d.State.Batches[b].VerifiedSignatures) < allocated && ref(d.State.Batches[b].DecryptedBatchHash) < allocated && verifiedAll(d.State.Batches[b])
  modifies mapof(d.State.PendingAppeals), d.Actions, elems(d.Actions)
  maypanic [no active configuration] true
  loopinv ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  loopinv len(d.Actions) >= old(len(d.Actions)) && forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> isAppeal(d, i)
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> strictOrder(authOf(d, i).SignerIndices) && len(authOf(d, i).Signatures) == len(authOf(d, i).SignerIndices)
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> inForceSigners(d, authOf(d, i).SignerIndices, authOf(d, i).HalfStep, authOf(d, i).Signatures)
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> knownSigner(d, authOf(d, i).SignerIndices, authOf(d, i).HalfStep, authOf(d, i).Signatures)
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> toAppeal(d, authOf(d, i).HalfStep)
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> sameBatchHash(d, authOf(d, i).BatchHash, authOf(d, i).HalfStep)
  ensures [for the batch hash that was decrypted and executed] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> sameBatchHash(d, authOf(d, i).BatchHash, authOf(d, i).HalfStep)
  ensures [earlier actions stay] len(d.Actions) >= old(len(d.Actions)) && forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  ensures [only appeals] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> isAppeal(d, i)
  ensures [signers in strictly increasing order, one signature each] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> strictOrder(authOf(d, i).SignerIndices) && len(authOf(d, i).Signatures) == len(authOf(d, i).SignerIndices)
  ensures [at least the threshold] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> inForceSigners(d, authOf(d, i).SignerIndices, authOf(d, i).HalfStep, authOf(d, i).Signatures)
  ensures [collected signatures of the keypers at these indices] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> knownSigner(d, authOf(d, i).SignerIndices, authOf(d, i).HalfStep, authOf(d, i).Signatures)
  ensures [against an open accusation, and not sent again] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> toAppeal(d, authOf(d, i).HalfStep)

define isAccuse(d, i) = istype(d.Actions[i], *fx.Accuse) && as(d.Actions[i], *fx.Accuse) != nil && ref(as(d.Actions[i], *fx.Accuse)) < allocated
define wronglyExecuted(d, h) = h % 2 == 0 && h < d.MainChain.NumExecutionHalfSteps && d.MainChain.CipherExecutionReceipts[h] != nil && (h / 2) in d.State.Batches && content(d.State.Batches[h / 2].DecryptedBatchHash) != content(d.MainChain.CipherExecutionReceipts[h].BatchHash) && !(h in d.MainChain.Accusations)
fn (*keyper.Decider).maybeAccuse(d) props K08
  requires d != nil && d.State != nil && d.MainChain != nil
  requires forall b: uint64 :: b in d.State.Batches ==> d.State.Batches[b] != nil && ref(d.State.Batches[b].DecryptedBatchHash) < allocated
  modifies d.State.HalfStepsChecked, d.Actions, elems(d.Actions)
  maypanic [no active configuration] true
  loopinv ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  loopinv len(d.Actions) >= old(len(d.Actions)) && forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  loopinv forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> isAccuse(d, i)
  loopinv ($h: uint64) forall i: int {d.Actions[i]} :: newAction(d, i, old(len(d.Actions))) ==> as(d.Actions[i], *fx.Accuse).HalfStep < $h && wronglyExecuted(d, as(d.Actions[i], *fx.Accuse).HalfStep) && as(d.Actions[i], *fx.Accuse).HalfStep >= old(d.State.HalfStepsChecked)
  loopinv forall i: int, j: int {d.Actions[i], d.Actions[j]} :: newAction(d, i, old(len(d.Actions))) && newAction(d, j, old(len(d.Actions))) && i < j ==> as(d.Actions[i], *fx.Accuse).HalfStep < as(d.Actions[j], *fx.Accuse).HalfStep
  ensures [earlier actions stay] len(d.Actions) >= old(len(d.Actions)) && forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  ensures [accused only for a hash other than the decrypted one, in a half step not looked at before and not accused yet] forall i: int :: newAction(d, i, old(len(d.Actions))) ==> isAccuse(d, i) && wronglyExecuted(d, as(d.Actions[i], *fx.Accuse).HalfStep) && as(d.Actions[i], *fx.Accuse).HalfStep >= old(d.State.HalfStepsChecked)
  ensures [one accusation per half step] forall i: int, j: int :: newAction(d, i, old(len(d.Actions))) && newAction(d, j, old(len(d.Actions))) && i < j ==> as(d.Actions[i], *fx.Accuse).HalfStep < as(d.Actions[j], *fx.Accuse).HalfStep
  ensures [all half steps are looked at] d.State.HalfStepsChecked == d.MainChain.NumExecutionHalfSteps
