// Key generation: message acceptance and phases (S04).
package pure "github.com/shutter-network/shutter/shlib/puredkg"
package shc "github.com/shutter-network/shutter/shlib/shcrypto"

declare qOrder(): Int needs qOrder_ax
smt qOrder_ax (assert (= qOrder 52435875175126190479447740508185965837690552500527637822603658699938581184513))
// the group order is a package variable set once at start-up
define orderSet() = shc.order != nil && *shc.order == qOrder && ref(shc.order) < allocated

extern (*big.Int).Sign(z) returns (r)
  requires z != nil
  ensures (r < 0 <==> *z < 0) && (r == 0 <==> *z == 0) && (r > 0 <==> *z > 0)
extern (*big.Int).Cmp(z, y) returns (r)
  requires z != nil && y != nil
  ensures (r < 0 <==> *z < *y) && (r == 0 <==> *z == *y) && (r > 0 <==> *z > *y)

define wfPure(p) = p != nil && len(p.Commitments) == p.NumKeypers && len(p.Evals) == p.NumKeypers && p.Accusations != nil && p.Apologies != nil && 0 <= p.Phase && p.Phase <= 4

fn pure.NewPureDKG(eon, n, t, k) returns (p) props S04,S05 nopanic
  requires n <= 4611686018427387904
  modifies
  ensures [starts off with nothing received] p.Phase == 0 && p.Eon == eon && p.NumKeypers == n && p.Threshold == t && p.Keyper == k && p.Polynomial == nil && len(p.Commitments) == n && len(p.Evals) == n && p.Accusations != nil && p.Apologies != nil
  ensures [nothing received yet] (forall i: int :: 0 <= i && i < n ==> p.Commitments[i] == nil && p.Evals[i] == nil) && (forall k: pure.accusationKey :: !(k in p.Accusations) && !(k in p.Apologies))

fn (*pure.PureDKG).setPhase(p, ph) props S04 use
  requires wfPure(p) && 0 <= ph && ph <= 4
  panics [not the next phase] ph != p.Phase + 1
  modifies p.Phase
  ensures [the next phase] p.Phase == ph && ph == old(p.Phase) + 1

fn (*pure.PureDKG).checkEonAndPhase(p, eon, max) returns (err) props S04 use nopanic
  requires wfPure(p)
  modifies
  ensures [this eon, not after the phase] (err == nil) <==> (eon == p.Eon && p.Phase <= max)

fn (*shc.Gammas).Degree(g) returns (r) props S04 use nopanic
  requires g != nil
  modifies
  ensures [one less than the number of points] r == (len(*g) + 18446744073709551615) % 18446744073709551616
fn shc.DegreeFromThreshold(t) returns (r) props S04 use nopanic
  modifies
  ensures r == (t + 18446744073709551615) % 18446744073709551616
fn shc.ValidEval(v) returns (r) props S04,S07 use nopanic
  requires v != nil && orderSet()
  modifies
  ensures [an element of the field] r <==> 0 <= *v && *v < qOrder

fn (*pure.PureDKG).HandlePolyCommitmentMsg(p, m) returns (err) props S04,S05 use nopanic
  requires wfPure(p) && m.Sender < p.NumKeypers && m.Gammas != nil
  modifies elems(p.Commitments)
  ensures [accepted iff first well-formed one in time] (err == nil) <==> (m.Eon == p.Eon && p.Phase <= 1 && old(p.Commitments[m.Sender]) == nil && len(*m.Gammas) == p.Threshold)
  ensures [stored] err == nil ==> p.Commitments[m.Sender] == m.Gammas
  ensures [nothing else changes] forall i: int :: 0 <= i && i < p.NumKeypers && (i != m.Sender || err != nil) ==> p.Commitments[i] == old(p.Commitments[i])
  ensures [the state stays consistent] old(dkgInv(p)) && old(ref(m.Gammas) < allocated && ref(*m.Gammas) < allocated && validGammas(*m.Gammas)) ==> dkgInv(p)

fn (*pure.PureDKG).HandlePolyEvalMsg(p, m) returns (err) props S04,S05 use nopanic
  requires wfPure(p) && m.Sender < p.NumKeypers && m.Eval != nil && orderSet()
  modifies elems(p.Evals)
  ensures [accepted iff first valid one in time, for this keyper] (err == nil) <==> (m.Eon == p.Eon && p.Phase <= 1 && m.Receiver == p.Keyper && old(p.Evals[m.Sender]) == nil && 0 <= *m.Eval && *m.Eval < qOrder)
  ensures [stored] err == nil ==> p.Evals[m.Sender] == m.Eval
  ensures [nothing else changes] forall i: int :: 0 <= i && i < p.NumKeypers && (i != m.Sender || err != nil) ==> p.Evals[i] == old(p.Evals[i])
  ensures [the state stays consistent] old(dkgInv(p)) && old(ref(m.Eval) < allocated) ==> dkgInv(p)

define akey(k, a, b) = k.Accuser == a && k.Accused == b
fn (*pure.PureDKG).HandleAccusationMsg(p, m) returns (err) props S04,S05 use nopanic
  requires wfPure(p)
  modifies mapof(p.Accusations)
  ensures [accepted iff first of its kind in time] forall k: pure.accusationKey :: akey(k, m.Accuser, m.Accused) ==> ((err == nil) <==> (m.Eon == p.Eon && p.Phase <= 2 && !old(k in p.Accusations)))
  ensures [recorded] err == nil ==> forall k: pure.accusationKey :: akey(k, m.Accuser, m.Accused) ==> k in p.Accusations
  ensures [nothing else changes] forall k: pure.accusationKey :: !akey(k, m.Accuser, m.Accused) || err != nil ==> (k in p.Accusations <==> old(k in p.Accusations))
  ensures [the state stays consistent] old(dkgInv(p)) && old(m.Accuser < p.NumKeypers && m.Accused < p.NumKeypers) ==> dkgInv(p)

fn (*pure.PureDKG).HandleApologyMsg(p, m) returns (err) props S04,S05 use nopanic
  requires wfPure(p) && m.Eval != nil && orderSet()
  modifies mapof(p.Apologies)
  ensures [accepted iff first valid one of its kind in time] forall k: pure.accusationKey :: akey(k, m.Accuser, m.Accused) ==> ((err == nil) <==> (m.Eon == p.Eon && p.Phase <= 3 && !old(k in p.Apologies) && 0 <= *m.Eval && *m.Eval < qOrder))
  ensures [recorded] err == nil ==> forall k: pure.accusationKey :: akey(k, m.Accuser, m.Accused) ==> k in p.Apologies && p.Apologies[k] == m.Eval
  ensures [nothing else changes] forall k: pure.accusationKey :: !akey(k, m.Accuser, m.Accused) || err != nil ==> (k in p.Apologies <==> old(k in p.Apologies)) && p.Apologies[k] == old(p.Apologies[k])
  ensures [the state stays consistent] old(dkgInv(p)) && old(m.Accuser < p.NumKeypers && m.Accused < p.NumKeypers && ref(m.Eval) < allocated) ==> dkgInv(p)

fn (*pure.PureDKG).Finalize(p) props S04
  requires wfPure(p)
  panics [not the next phase] p.Phase != 3
  modifies p.Phase
  ensures [finalized] p.Phase == 4
