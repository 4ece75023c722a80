// A keyper's part in a key generation (K09).
// ---- messages
define oneFresh(m) = m != nil && fresh(m) && ref(m) < allocated
define isCommitMsg(m) = istype(m.Payload, *shmsg.Message_PolyCommitment) && oldObj(as(m.Payload, *shmsg.Message_PolyCommitment)) && oldObj(as(m.Payload, *shmsg.Message_PolyCommitment).PolyCommitment)
define commitMsg(m) = as(m.Payload, *shmsg.Message_PolyCommitment).PolyCommitment
declare g2text(U_G2): Str
fn shmsg.NewPolyCommitment(eon, g) returns (m) props K09 use nopanic
  requires g != nil && forall i: int {(*g)[i]} :: 0 <= i && i < len(*g) ==> (*g)[i] != nil
  modifies
  loopinv ($r: [][]byte, $n: int) len($r) == $n && $r != nil && fresh($r) && ref($r) < allocated && forall i: int {$r[i]} :: 0 <= i && i < $n ==> content($r[i]) == g2text(*(*g)[i]) && fresh($r[i]) && ref($r[i]) < allocated
  ensures [a new message] oneFresh(m) && isCommitMsg(m) && fresh(as(m.Payload, *shmsg.Message_PolyCommitment)) && fresh(commitMsg(m))
  ensures [the commitment in order] commitMsg(m).Eon == eon && len(commitMsg(m).Gammas) == len(*g) && forall i: int {commitMsg(m).Gammas[i]} :: 0 <= i && i < len(*g) ==> content(commitMsg(m).Gammas[i]) == g2text(*(*g)[i])
  ensures [own lists] fresh(commitMsg(m).Gammas) && ref(commitMsg(m).Gammas) < allocated && forall i: int {commitMsg(m).Gammas[i]} :: 0 <= i && i < len(*g) ==> fresh(commitMsg(m).Gammas[i]) && ref(commitMsg(m).Gammas[i]) < allocated

define isAccMsg(m) = istype(m.Payload, *shmsg.Message_Accusation) && oldObj(as(m.Payload, *shmsg.Message_Accusation)) && oldObj(as(m.Payload, *shmsg.Message_Accusation).Accusation)
define accMsg(m) = as(m.Payload, *shmsg.Message_Accusation).Accusation
fn shmsg.NewAccusation(eon, accused) returns (m) props K09 use nopanic
  modifies
  loopinv ($r: [][]byte, $n: int) len($r) == $n && $r != nil && fresh($r) && ref($r) < allocated && forall i: int {$r[i]} :: 0 <= i && i < $n ==> content($r[i]) == content(accused[i]) && fresh($r[i]) && ref($r[i]) < allocated
  ensures [a new message] oneFresh(m) && isAccMsg(m) && fresh(as(m.Payload, *shmsg.Message_Accusation)) && fresh(accMsg(m))
  ensures [the accused in order] accMsg(m).Eon == eon && addrTexts(accMsg(m).Accused, accused)
  ensures [own lists] fresh(accMsg(m).Accused) && ref(accMsg(m).Accused) < allocated && forall i: int {accMsg(m).Accused[i]} :: 0 <= i && i < len(accused) ==> fresh(accMsg(m).Accused[i]) && ref(accMsg(m).Accused[i]) < allocated

define isApoMsg(m) = istype(m.Payload, *shmsg.Message_Apology) && oldObj(as(m.Payload, *shmsg.Message_Apology)) && oldObj(as(m.Payload, *shmsg.Message_Apology).Apology)
define apoMsg(m) = as(m.Payload, *shmsg.Message_Apology).Apology
fn shmsg.NewApology(eon, accusers, evals) returns (m) props K09 use
  requires forall i: int {evals[i]} :: 0 <= i && i < len(evals) ==> evals[i] != nil
  panics [lists of different lengths] len(accusers) != len(evals)
  modifies
  loopinv ($r: [][]byte, $n: int, $a: []common.Address) len($r) == $n && ($n > 0 ==> $r != nil) && ($r != nil ==> fresh($r)) && ref($r) < allocated && forall i: int {$r[i]} :: 0 <= i && i < $n ==> content($r[i]) == content(accusers[i]) && fresh($r[i]) && ref($r[i]) < allocated
  loopinv ($r: [][]byte, $n: int) len($r) == $n && ($n > 0 ==> $r != nil) && ($r != nil ==> fresh($r)) && ref($r) < allocated && forall i: int {$r[i]} :: 0 <= i && i < $n ==> content($r[i]) == i2os(*evals[i]) && fresh($r[i]) && ref($r[i]) < allocated
  loopinv ($a: [][]byte, $r: [][]byte, $n: int) len($a) == len(accusers) && ($a != nil ==> fresh($a)) && ref($a) < allocated && len($r) == $n && ref($r) < allocated && ($n == 0 ==> $r == nil) && ($n > 0 ==> $r != nil && fresh($r) && ref($a) != ref($r)) && forall i: int {$a[i]} :: 0 <= i && i < len(accusers) ==> content($a[i]) == content(accusers[i]) && ref($a[i]) < allocated && $a != nil && fresh($a[i])
  ensures [a new message] oneFresh(m) && isApoMsg(m) && fresh(as(m.Payload, *shmsg.Message_Apology)) && fresh(apoMsg(m))
  ensures [the accusers in order] apoMsg(m).Eon == eon && addrTexts(apoMsg(m).Accusers, accusers)
  ensures [with the evaluations] len(apoMsg(m).PolyEvals) == len(evals) && forall i: int {apoMsg(m).PolyEvals[i]} :: 0 <= i && i < len(evals) ==> content(apoMsg(m).PolyEvals[i]) == i2os(*evals[i])
  ensures [own lists] ref(apoMsg(m).Accusers) < allocated && ref(apoMsg(m).PolyEvals) < allocated && (forall i: int {apoMsg(m).Accusers[i]} :: 0 <= i && i < len(accusers) ==> ref(apoMsg(m).Accusers[i]) < allocated) && forall i: int {apoMsg(m).PolyEvals[i]} :: 0 <= i && i < len(evals) ==> ref(apoMsg(m).PolyEvals[i]) < allocated

define isEvalMsg(m) = istype(m.Payload, *shmsg.Message_PolyEval) && oldObj(as(m.Payload, *shmsg.Message_PolyEval)) && oldObj(as(m.Payload, *shmsg.Message_PolyEval).PolyEval)
define evalMsg(m) = as(m.Payload, *shmsg.Message_PolyEval).PolyEval
fn shmsg.NewPolyEval(eon, rs, enc) returns (m) props K09 use nopanic
  modifies
  loopinv ($r: [][]byte, $n: int) len($r) == $n && $r != nil && fresh($r) && ref($r) < allocated && forall i: int {$r[i]} :: 0 <= i && i < $n ==> content($r[i]) == content(rs[i]) && fresh($r[i]) && ref($r[i]) < allocated
  ensures [a new message] oneFresh(m) && isEvalMsg(m) && fresh(as(m.Payload, *shmsg.Message_PolyEval)) && fresh(evalMsg(m))
  ensures [receivers and their evaluations in order] evalMsg(m).Eon == eon && addrTexts(evalMsg(m).Receivers, rs) && evalMsg(m).EncryptedEvals == enc
  ensures [own lists] fresh(evalMsg(m).Receivers) && ref(evalMsg(m).Receivers) < allocated && forall i: int {evalMsg(m).Receivers[i]} :: 0 <= i && i < len(rs) ==> fresh(evalMsg(m).Receivers[i]) && ref(evalMsg(m).Receivers[i]) < allocated

// ---- taking part
extern puredkg.NewPureDKG(eon, n, t, k) returns (p)
  ensures p.Eon == eon && p.NumKeypers == n && p.Threshold == t && p.Keyper == k && p.Phase == 0
define lastSh(sh, b, k) = 0 <= k && k < len(sh.BatchConfigs) && sh.BatchConfigs[k].StartBatchIndex <= b && forall j: int {sh.BatchConfigs[j]} :: k < j && j < len(sh.BatchConfigs) ==> sh.BatchConfigs[j].StartBatchIndex > b
define noSh(sh, b) = forall j: int {sh.BatchConfigs[j]} :: 0 <= j && j < len(sh.BatchConfigs) ==> sh.BatchConfigs[j].StartBatchIndex > b
// the own part of the key generation of an eon under a configuration
define partOf(g, d, e, c) = g.Eon == e.Eon && g.StartBatchIndex == e.StartEvent.BatchIndex && g.Keypers == c.Keypers && g.PhaseLength == d.PhaseLength && len(g.OutgoingPolyEvalMsgs) == 0 && g.Pure != nil && g.Pure.Eon == e.Eon && g.Pure.NumKeypers == len(c.Keypers) && g.Pure.Threshold == c.Threshold && g.Pure.Phase == 0 && g.Pure.Keyper < len(c.Keypers) && c.Keypers[g.Pure.Keyper] == ownAddr(d)
define dkgsKept(d) = (ref(d.State.DKGs) == old(ref(d.State.DKGs)) || fresh(d.State.DKGs)) && forall i: int {d.State.DKGs[i]} :: 0 <= i && i < old(len(d.State.DKGs)) ==> d.State.DKGs[i] == old(d.State.DKGs[i])
fn (*keyper.Decider).startDKG(d, e) props K09 nopanic
  requires d != nil && d.State != nil && d.Shutter != nil && d.Config.SigningKey != nil && e != nil
  modifies d.State.DKGs, elems(d.State.DKGs)
  ensures [earlier ones stay] dkgsKept(d)
  ensures [none when the own address is not a keyper of the batch] (noSh(d.Shutter, e.StartEvent.BatchIndex) ==> len(d.State.DKGs) == old(len(d.State.DKGs))) && forall k: int {d.Shutter.BatchConfigs[k]} :: lastSh(d.Shutter, e.StartEvent.BatchIndex, k) && !listed(d.Shutter.BatchConfigs[k].Keypers, ownAddr(d)) ==> len(d.State.DKGs) == old(len(d.State.DKGs))
  ensures [otherwise one, with the keypers, threshold and own place in the configuration of the batch] forall k: int {d.Shutter.BatchConfigs[k]} :: lastSh(d.Shutter, e.StartEvent.BatchIndex, k) && listed(d.Shutter.BatchConfigs[k].Keypers, ownAddr(d)) ==> len(d.State.DKGs) == old(len(d.State.DKGs)) + 1 && partOf(d.State.DKGs[old(len(d.State.DKGs))], d, e, d.Shutter.BatchConfigs[k])
