// Key generation: dealing, accusations, apologies and the verdict on dealers (S05).
package pure "github.com/shutter-network/shutter/shlib/puredkg"
package shc "github.com/shutter-network/shutter/shlib/shcrypto"

define field(x) = 0 <= x && x < qOrder
// v is the value keyper a should have from the dealer who committed to g
define committed(v, a, g, t) = len(g) == t && v == gammasAt(g, a + 1)
define dkgInv(p) = wfPure(p) && orderSet() && p.NumKeypers <= 4611686018427387904 && p.Threshold <= 4611686018427387904 && ref(p.Commitments) < allocated && ref(p.Evals) < allocated && (forall i: int {p.Commitments[i]} :: 0 <= i && i < p.NumKeypers && p.Commitments[i] != nil ==> len(*p.Commitments[i]) == p.Threshold && ref(p.Commitments[i]) < allocated && ref(*p.Commitments[i]) < allocated && validGammas(*p.Commitments[i])) && (forall i: int {p.Evals[i]} :: 0 <= i && i < p.NumKeypers && p.Evals[i] != nil ==> ref(p.Evals[i]) < allocated && field(*p.Evals[i])) && (forall k: pure.accusationKey {k in p.Accusations} :: k in p.Accusations ==> k.Accuser < p.NumKeypers && k.Accused < p.NumKeypers) && (forall k: pure.accusationKey {k in p.Apologies} :: k in p.Apologies ==> k.Accuser < p.NumKeypers && k.Accused < p.NumKeypers && p.Apologies[k] != nil && ref(p.Apologies[k]) < allocated && field(*p.Apologies[k]))

define unanswered(p, d) = exists k: pure.accusationKey {k in p.Accusations} :: k in p.Accusations && k.Accused == d && !(k in p.Apologies)
define badApology(p, d) = exists k: pure.accusationKey {k in p.Apologies} :: k in p.Apologies && k.Accused == d && !committed(*p.Apologies[k], k.Accuser, *p.Commitments[d], p.Threshold)
define corrupt(p, d) = p.Commitments[d] == nil || badApology(p, d) || unanswered(p, d)

fn (*pure.PureDKG).isCorrupt(p, d) returns (r) props S05 use nopanic
  requires dkgInv(p) && d < p.NumKeypers
  modifies
  loopinv forall k: pure.accusationKey {visited[k]} :: visited[k] ==> k in p.Apologies
  loopinv forall k: pure.accusationKey {visited[k]} :: visited[k] && k.Accused == d ==> committed(*p.Apologies[k], k.Accuser, *p.Commitments[d], p.Threshold)
  loopinv forall k: pure.accusationKey {visited[k]} :: visited[k] ==> k in p.Accusations
  loopinv forall k: pure.accusationKey {visited[k]} :: visited[k] && k.Accused == d ==> k in p.Apologies
  ensures [no commitment, a wrong apology, or an unanswered accusation] r <==> corrupt(p, d)

define myEval(p, d) = ite(mk(pure.accusationKey, p.Keyper, d) in p.Apologies, p.Apologies[mk(pure.accusationKey, p.Keyper, d)], p.Evals[d])
fn (*pure.PureDKG).polyEval(p, d) returns (r) props S05,S06 use nopanic
  requires dkgInv(p) && d < p.NumKeypers
  modifies
  loopinv forall k: pure.accusationKey {visited[k]} :: visited[k] ==> k in p.Apologies && !(k.Accuser == p.Keyper && k.Accused == d)
  ensures [the value of the apology to this keyper, else the value received] r == myEval(p, d)

define misdealt(p, d) = p.Evals[d] == nil || p.Commitments[d] == nil || !committed(*p.Evals[d], p.Keyper, *p.Commitments[d], p.Threshold)
fn (*pure.PureDKG).StartPhase2Accusing(p) returns (r) props S05
  requires dkgInv(p) && p.Keyper < p.NumKeypers
  panics [not the next phase] p.Phase != 1
  modifies p.Phase
  loopinv ($r: []pure.AccusationMsg) ($r != nil ==> fresh($r)) && (ref($r) == 0 ==> len($r) == 0) && ref($r) < allocated
  loopinv ($i: uint64) $i <= p.NumKeypers
  loopinv ($r: []pure.AccusationMsg, $i: uint64) len($r) <= $i
  loopinv ($r: []pure.AccusationMsg, $i: uint64) forall i: int :: 0 <= i && i < len($r) ==> $r[i].Eon == p.Eon && $r[i].Accuser == p.Keyper && $r[i].Accused < $i && $r[i].Accused != p.Keyper
  loopinv ($r: []pure.AccusationMsg) forall i: int, d: int {$r[i].Accused, old(p.Evals[d])} :: 0 <= i && i < len($r) && $r[i].Accused == d ==> old(misdealt(p, d))
  loopinv ($r: []pure.AccusationMsg) forall i: int, j: int :: 0 <= i && i < j && j < len($r) ==> $r[i].Accused < $r[j].Accused
  loopinv ($r: []pure.AccusationMsg, $i: uint64) forall d: int {old(p.Evals[d])} {old(p.Commitments[d])} :: 0 <= d && d < $i && d != p.Keyper && old(misdealt(p, d)) ==> exists i: int {$r[i].Accused} :: 0 <= i && i < len($r) && $r[i].Accused == d
  ensures [accuses only others that misdealt] forall i: int :: 0 <= i && i < len(r) ==> r[i].Eon == p.Eon && r[i].Accuser == p.Keyper && r[i].Accused < p.NumKeypers && r[i].Accused != p.Keyper
  ensures [they misdealt] forall i: int, d: int {r[i].Accused, old(p.Evals[d])} :: 0 <= i && i < len(r) && r[i].Accused == d ==> old(misdealt(p, d))
  ensures [each once] forall i: int, j: int :: 0 <= i && i < j && j < len(r) ==> r[i].Accused != r[j].Accused
  ensures [accuses all others that misdealt] forall d: int {old(p.Evals[d])} {old(p.Commitments[d])} :: 0 <= d && d < p.NumKeypers && d != p.Keyper && old(misdealt(p, d)) ==> exists i: int {r[i].Accused} :: 0 <= i && i < len(r) && r[i].Accused == d
  ensures [in the accusing phase] p.Phase == 2 && dkgInv(p)

fn (*pure.PureDKG).StartPhase3Apologizing(p) returns (r) props S05
  requires dkgInv(p) && p.Keyper < p.NumKeypers && p.Polynomial != nil && validPoly(*p.Polynomial) && ref(*p.Polynomial) < allocated
  panics [not the next phase] p.Phase != 2
  modifies p.Phase
  loopinv forall k: pure.accusationKey {visited[k]} :: visited[k] ==> k in p.Accusations
  loopinv *p.Polynomial == old(*p.Polynomial) && validPoly(*p.Polynomial)
  loopinv forall x: int {polyAt(*p.Polynomial, x)} :: polyAt(*p.Polynomial, x) == old(polyAt(*p.Polynomial, x))
  loopinv ($r: []pure.ApologyMsg) ($r != nil ==> fresh($r)) && (ref($r) == 0 ==> len($r) == 0) && ref($r) < allocated
  loopinv ($r: []pure.ApologyMsg) len($r) <= nvisited
  loopinv ($r: []pure.ApologyMsg) forall i: int :: 0 <= i && i < len($r) ==> visited[mk(pure.accusationKey, $r[i].Accuser, p.Keyper)] && $r[i].Eon == p.Eon && $r[i].Accused == p.Keyper
  loopinv ($r: []pure.ApologyMsg) forall i: int :: 0 <= i && i < len($r) ==> $r[i].Eval != nil && fresh($r[i].Eval) && ref($r[i].Eval) < allocated && *$r[i].Eval == polyAt(*p.Polynomial, 1 + $r[i].Accuser)
  loopinv ($r: []pure.ApologyMsg) forall k: pure.accusationKey {visited[k]} :: visited[k] && k.Accused == p.Keyper ==> exists i: int {$r[i].Accuser} :: 0 <= i && i < len($r) && $r[i].Accuser == k.Accuser
  ensures [answers accusations against itself with the true value] forall i: int :: 0 <= i && i < len(r) ==> mk(pure.accusationKey, r[i].Accuser, p.Keyper) in p.Accusations && r[i].Eon == p.Eon && r[i].Accused == p.Keyper && r[i].Eval != nil && *r[i].Eval == polyAt(*p.Polynomial, 1 + r[i].Accuser)
  ensures [the polynomial stays] forall x: int {polyAt(*p.Polynomial, x)} :: polyAt(*p.Polynomial, x) == old(polyAt(*p.Polynomial, x))
  ensures [answers every accusation] forall k: pure.accusationKey {k in p.Accusations} :: k in p.Accusations && k.Accused == p.Keyper ==> exists i: int {r[i].Accuser} :: 0 <= i && i < len(r) && r[i].Accuser == k.Accuser
  ensures [in the apologizing phase] p.Phase == 3 && dkgInv(p)

fn (*pure.PureDKG).StartPhase1Dealing(p) returns (c, e, err) props S05
  requires dkgInv(p) && p.Keyper < p.NumKeypers && p.Evals[p.Keyper] == nil && p.Threshold > 0
  panics [not the next phase] p.Phase != 0
  modifies p.Phase, p.Polynomial, elems(p.Evals)
  loopinv ($r: []pure.PolyEvalMsg) ($r != nil ==> fresh($r)) && (ref($r) == 0 ==> len($r) == 0) && ref($r) < allocated
  loopinv ($i: uint64) $i <= p.NumKeypers
  loopinv ($r: []pure.PolyEvalMsg, $i: uint64) len($r) == $i - ite($i > p.Keyper, 1, 0)
  loopinv dkgInv(p)
  loopinv p.Phase == 1 && fresh(p.Polynomial) && ref(p.Polynomial) < allocated && fresh(*p.Polynomial) && ref(*p.Polynomial) < allocated && len(*p.Polynomial) == p.Threshold
  loopinv validPoly(*p.Polynomial)
  loopinv ($i: uint64) $i <= p.Keyper ==> p.Evals[p.Keyper] == nil
  loopinv ($i: uint64) $i > p.Keyper ==> p.Evals[p.Keyper] != nil && *p.Evals[p.Keyper] == polyAt(*p.Polynomial, p.Keyper + 1)
  loopinv forall i: int {p.Evals[i]} :: 0 <= i && i < p.NumKeypers && i != p.Keyper ==> p.Evals[i] == old(p.Evals[i])
  loopinv ($r: []pure.PolyEvalMsg) forall j: int {$r[j]} :: 0 <= j && j < len($r) ==> $r[j].Eon == p.Eon && $r[j].Sender == p.Keyper && $r[j].Receiver == ite(j < p.Keyper, j, j + 1) && $r[j].Eval != nil && fresh($r[j].Eval) && ref($r[j].Eval) < allocated && field(*$r[j].Eval) && *$r[j].Eval == polyAt(*p.Polynomial, $r[j].Receiver + 1)
  ensures [one polynomial of the agreed degree] err == nil ==> p.Phase == 1 && p.Polynomial != nil && validPoly(*p.Polynomial) && len(*p.Polynomial) == p.Threshold
  ensures [commits to the polynomial] err == nil ==> c.Eon == p.Eon && c.Sender == p.Keyper && c.Gammas != nil && len(*c.Gammas) == p.Threshold && (forall i: int :: 0 <= i && i < len(*c.Gammas) ==> (*c.Gammas)[i] != nil && *(*c.Gammas)[i] == *(*p.Polynomial)[i])
  ensures [sends everybody else their value] err == nil ==> len(e) == p.NumKeypers - 1 && (forall j: int {e[j]} :: 0 <= j && j < len(e) ==> e[j].Eon == p.Eon && e[j].Sender == p.Keyper && e[j].Receiver == ite(j < p.Keyper, j, j + 1) && e[j].Eval != nil && *e[j].Eval == polyAt(*p.Polynomial, e[j].Receiver + 1))
  ensures [keeps its own value] err == nil ==> p.Evals[p.Keyper] != nil && *p.Evals[p.Keyper] == polyAt(*p.Polynomial, p.Keyper + 1)
  ensures [the state stays consistent] dkgInv(p)
