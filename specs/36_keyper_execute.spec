// Execution of batches on the main chain (K07).
fn keyper.getNumHalfStepsToExecute(next, b) returns (r) props K07 use nopanic
  modifies
  ensures [at most ten at once] r <= 10
  ensures [what is missing up to the current batch, at most ten] b < 9223372036854775808 ==> r == ite(next >= 2 * b, 0, ite(2 * b - next <= 10, 2 * b - next, 10))

define ownAddr(d) = pkAddr(d.Config.SigningKey.PublicKey)
// the delay of a keyper: its place in the rotation of this half step, times the staggering
fn (*keyper.Decider).executionDelay(d, c, h) returns (r) props K07 use nopanic
  requires d != nil && d.Config.SigningKey != nil && d.MainChain != nil
  modifies
  ensures [at most half the execution timeout] 2 * r <= c.ExecutionTimeout
  ensures [nothing without keypers] len(c.Keypers) == 0 ==> r == 0

define isCipher(a) = istype(a, *fx.ExecuteCipherBatch) && as(a, *fx.ExecuteCipherBatch) != nil && ref(as(a, *fx.ExecuteCipherBatch)) < allocated
define isPlain(a) = istype(a, *fx.ExecutePlainBatch) && as(a, *fx.ExecutePlainBatch) != nil && ref(as(a, *fx.ExecutePlainBatch)) < allocated
define isSkip(a) = istype(a, *fx.SkipCipherBatch) && as(a, *fx.SkipCipherBatch) != nil && ref(as(a, *fx.SkipCipherBatch)) < allocated
define cipherOf(a) = as(a, *fx.ExecuteCipherBatch)
define plainAct(a) = as(a, *fx.ExecutePlainBatch)
define wfExec(d) = (forall b: uint64 {b in d.MainChain.Batches} :: b in d.MainChain.Batches ==> d.MainChain.Batches[b] != nil) && (forall b: uint64 {b in d.State.Batches} :: b in d.State.Batches ==> d.State.Batches[b] != nil)

fn (*keyper.Decider).executeCipherBatch(d, b, c) returns (a) props K07 use nopanic
  requires d != nil && d.State != nil && d.MainChain != nil && d.Config.SigningKey != nil && wfExec(d)
  modifies
  ensures [a cipher batch or nothing] a == nil || (isCipher(a) && cipherOf(a).BatchIndex == b)
  ensures [with the decrypted transactions of the batch] a != nil ==> b in d.State.Batches && cipherOf(a).Transactions == d.State.Batches[b].DecryptedTransactions
  ensures [with enough signatures, unless empty] a != nil ==> d.State.Batches[b].IsEmpty || len(d.State.Batches[b].VerifiedSignatures) >= c.Threshold
  ensures [with the hash of the encrypted batch] a != nil ==> (b in d.MainChain.Batches ==> cipherOf(a).CipherBatchHash == d.MainChain.Batches[b].EncryptedBatchHash) && (!(b in d.MainChain.Batches) ==> cipherOf(a).CipherBatchHash == zero(common.Hash))
  ensures [under the own keyper index] a != nil && listed(c.Keypers, ownAddr(d)) ==> cipherOf(a).KeyperIndex < len(c.Keypers) && c.Keypers[cipherOf(a).KeyperIndex] == ownAddr(d)
  ensures [whenever it can be] b in d.State.Batches && (d.State.Batches[b].IsEmpty || len(d.State.Batches[b].VerifiedSignatures) >= c.Threshold) ==> a != nil

fn (*keyper.Decider).executePlainBatch(d, b, c) returns (a) props K07 use nopanic
  requires d != nil && d.MainChain != nil && forall b: uint64 {b in d.MainChain.Batches} :: b in d.MainChain.Batches ==> d.MainChain.Batches[b] != nil
  modifies
  ensures [a plain batch] a != nil && isPlain(a) && plainAct(a).BatchIndex == b
  ensures [with the plain transactions of the batch] (b in d.MainChain.Batches ==> plainAct(a).Transactions == d.MainChain.Batches[b].PlainTransactions) && (!(b in d.MainChain.Batches) ==> len(plainAct(a).Transactions) == 0)

define endOf(mc, k, b) = startOf(mc.BatchConfigs[k], b + 1)
// the numbers of the governing configuration are far from the machine limit
define smallCfg(mc, k, b) = mc.BatchConfigs[k].ExecutionTimeout < 4611686018427387904 && (mc.BatchConfigs[k].BatchSpan > 0 ==> endOf(mc, k, b) < 9223372036854775808)
define governs(mc, k, b) = lastByBatch(mc, b, k)
fn (*keyper.Decider).maybeExecuteHalfStep(d, h) returns (a) props K07 use
  requires d != nil && d.State != nil && d.MainChain != nil && d.Config.SigningKey != nil && wfExec(d)
  panics [no configuration started] noneByBatch(d.MainChain, h / 2)
  modifies
  ensures [cipher batch, skip or plain batch of this half step] a == nil || (isCipher(a) && h % 2 == 0 && cipherOf(a).BatchIndex == h / 2) || (isSkip(a) && h % 2 == 0 && as(a, *fx.SkipCipherBatch).BatchIndex == h / 2) || (isPlain(a) && h % 2 == 1 && plainAct(a).BatchIndex == h / 2)
  ensures [only under an active configuration] a != nil ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) ==> d.MainChain.BatchConfigs[k].BatchSpan > 0
  ensures [executed only by keypers of the batch] a != nil && !isSkip(a) ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) ==> listed(d.MainChain.BatchConfigs[k].Keypers, ownAddr(d))
  ensures [executed only after the period is over] a != nil && !isSkip(a) ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) && smallCfg(d.MainChain, k, h / 2) ==> d.MainChain.CurrentBlock >= endOf(d.MainChain, k, h / 2)
  ensures [cipher batches only before the timeout] a != nil && isCipher(a) ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) && smallCfg(d.MainChain, k, h / 2) ==> d.MainChain.CurrentBlock < endOf(d.MainChain, k, h / 2) + d.MainChain.BatchConfigs[k].ExecutionTimeout
  ensures [skipped only after the timeout] a != nil && isSkip(a) ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) && smallCfg(d.MainChain, k, h / 2) ==> d.MainChain.CurrentBlock >= endOf(d.MainChain, k, h / 2) + d.MainChain.BatchConfigs[k].ExecutionTimeout
  ensures [enough signatures] a != nil && isCipher(a) ==> (h / 2) in d.State.Batches && (d.State.Batches[h / 2].IsEmpty || forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) ==> len(d.State.Batches[h / 2].VerifiedSignatures) >= d.MainChain.BatchConfigs[k].Threshold)
  ensures [the transactions of the batch] (a != nil && isCipher(a) ==> cipherOf(a).Transactions == d.State.Batches[h / 2].DecryptedTransactions) && (a != nil && isPlain(a) && (h / 2) in d.MainChain.Batches ==> plainAct(a).Transactions == d.MainChain.Batches[h / 2].PlainTransactions) && (a != nil && isPlain(a) && !((h / 2) in d.MainChain.Batches) ==> len(plainAct(a).Transactions) == 0)
  ensures [the hash of the encrypted batch] a != nil && isCipher(a) ==> ((h / 2) in d.MainChain.Batches ==> cipherOf(a).CipherBatchHash == d.MainChain.Batches[h / 2].EncryptedBatchHash) && (!((h / 2) in d.MainChain.Batches) ==> cipherOf(a).CipherBatchHash == zero(common.Hash))
  ensures [the plain part is executed once half the timeout has passed] h % 2 == 1 ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) && smallCfg(d.MainChain, k, h / 2) && d.MainChain.BatchConfigs[k].BatchSpan > 0 && listed(d.MainChain.BatchConfigs[k].Keypers, ownAddr(d)) && 2 * d.MainChain.CurrentBlock >= 2 * endOf(d.MainChain, k, h / 2) + d.MainChain.BatchConfigs[k].ExecutionTimeout ==> a != nil
  ensures [so is a signed cipher part before the timeout] h % 2 == 0 ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) && smallCfg(d.MainChain, k, h / 2) && d.MainChain.BatchConfigs[k].BatchSpan > 0 && listed(d.MainChain.BatchConfigs[k].Keypers, ownAddr(d)) && 2 * d.MainChain.CurrentBlock >= 2 * endOf(d.MainChain, k, h / 2) + d.MainChain.BatchConfigs[k].ExecutionTimeout && d.MainChain.CurrentBlock < endOf(d.MainChain, k, h / 2) + d.MainChain.BatchConfigs[k].ExecutionTimeout && (h / 2) in d.State.Batches && (d.State.Batches[h / 2].IsEmpty || len(d.State.Batches[h / 2].VerifiedSignatures) >= d.MainChain.BatchConfigs[k].Threshold) ==> a != nil && isCipher(a)
  ensures [a cipher batch nobody executes is skipped] h % 2 == 0 ==> forall k: int {d.MainChain.BatchConfigs[k].StartBatchIndex} :: governs(d.MainChain, k, h / 2) && smallCfg(d.MainChain, k, h / 2) && d.MainChain.BatchConfigs[k].BatchSpan > 0 && 2 * d.MainChain.CurrentBlock >= 2 * endOf(d.MainChain, k, h / 2) + 3 * d.MainChain.BatchConfigs[k].ExecutionTimeout ==> a != nil && isSkip(a)

define curOf(c, n) = c.StartBatchIndex + (n - c.StartBlockNumber) / c.BatchSpan
define curBatch(mc, c) = mc.BatchConfigs[c].StartBatchIndex + (mc.CurrentBlock - mc.BatchConfigs[c].StartBlockNumber) / mc.BatchConfigs[c].BatchSpan
// the action of a half step
define stepOf(a, h) = (isCipher(a) && h % 2 == 0 && cipherOf(a).BatchIndex == h / 2) || (isSkip(a) && h % 2 == 0 && as(a, *fx.SkipCipherBatch).BatchIndex == h / 2) || (isPlain(a) && h % 2 == 1 && plainAct(a).BatchIndex == h / 2)
fn (*keyper.Decider).maybeExecuteBatch(d) props K07
  requires d != nil && d.State != nil && d.MainChain != nil && d.Config.SigningKey != nil && wfExec(d)
  requires d.State.PendingHalfStep == nil || ref(d.State.PendingHalfStep) < allocated
  requires d.MainChain.NumExecutionHalfSteps < 9223372036854775808
  modifies d.State.PendingHalfStep, d.Actions, elems(d.Actions)
  maypanic [no configuration started] true
  loopinv ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)
  loopinv len(d.Actions) >= old(len(d.Actions)) && forall i: int {d.Actions[i]} :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  loopinv len(d.Actions) - old(len(d.Actions)) <= 10
  loopinv ($c: contract.BatchConfig) len(d.Actions) == old(len(d.Actions)) || curOf($c, d.MainChain.CurrentBlock) >= 9223372036854775808 || d.MainChain.NumExecutionHalfSteps + (len(d.Actions) - old(len(d.Actions))) <= 2 * curOf($c, d.MainChain.CurrentBlock)
  loopinv ($h: uint64) len(d.Actions) - old(len(d.Actions)) == $h - d.MainChain.NumExecutionHalfSteps
  loopinv forall i: int {d.Actions[i]} :: newAct(d, i, old(len(d.Actions))) ==> stepOf(d.Actions[i], d.MainChain.NumExecutionHalfSteps + (i - old(len(d.Actions))))
  loopinv ($h: uint64) $h == d.MainChain.NumExecutionHalfSteps || (d.State.PendingHalfStep != nil && *d.State.PendingHalfStep == $h - 1)
  ensures [earlier actions stay] len(d.Actions) >= old(len(d.Actions)) && forall i: int :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
  ensures [consecutive half steps from the first that is not executed yet] forall i: int :: newAct(d, i, old(len(d.Actions))) ==> stepOf(d.Actions[i], d.MainChain.NumExecutionHalfSteps + (i - old(len(d.Actions))))
  ensures [at most ten at once] len(d.Actions) <= old(len(d.Actions)) + 10
  ensures [nothing while one is pending] old(d.State.PendingHalfStep) != nil && d.MainChain.NumExecutionHalfSteps <= old(*d.State.PendingHalfStep) ==> len(d.Actions) == old(len(d.Actions)) && d.State.PendingHalfStep == old(d.State.PendingHalfStep)
  ensures [the last one is pending] len(d.Actions) > old(len(d.Actions)) ==> d.State.PendingHalfStep != nil && *d.State.PendingHalfStep == d.MainChain.NumExecutionHalfSteps + (len(d.Actions) - old(len(d.Actions))) - 1
  ensures [only batches before the current one] forall c: int {d.MainChain.BatchConfigs[c].StartBlockNumber} :: lastByBlock(d.MainChain, d.MainChain.CurrentBlock, c) && len(d.Actions) > old(len(d.Actions)) && curBatch(d.MainChain, c) < 9223372036854775808 ==> d.MainChain.NumExecutionHalfSteps + (len(d.Actions) - old(len(d.Actions))) <= 2 * curBatch(d.MainChain, c)
  ensures [only under an active configuration] forall c: int {d.MainChain.BatchConfigs[c].StartBlockNumber} :: lastByBlock(d.MainChain, d.MainChain.CurrentBlock, c) && len(d.Actions) > old(len(d.Actions)) ==> d.MainChain.BatchConfigs[c].BatchSpan > 0
