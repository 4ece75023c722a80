// Key generation: the resulting keys (S06).
package pure "github.com/shutter-network/shutter/shlib/puredkg"
package shc "github.com/shutter-network/shutter/shlib/shcrypto"

define nonZero(g) = zdiff(elems(g), off(g), len(g), cells(blst.P2Affine))
fn shc.ZeroGammas(d) returns (g) props S06 use nopanic
  requires d < 4611686018427387904
  modifies
  loopinv ($p: []*blst.P2Affine, $i: uint64) $i <= d + 1 && $p != nil && fresh($p) && ref($p) < allocated && len($p) == $i && forall j: int {$p[j]} :: 0 <= j && j < len($p) ==> $p[j] != nil && fresh($p[j]) && ref($p[j]) < allocated && *$p[j] == 0
  ensures [only points at infinity] g != nil && fresh(g) && ref(g) < allocated && ref(*g) < allocated && len(*g) == d + 1 && validGammas(*g) && forall i: int {(*g)[i]} :: 0 <= i && i < len(*g) ==> *(*g)[i] == 0
  ensures [no non-zero point] nonZero(*g) < 0 || nonZero(*g) >= len(*g) || *(*g)[nonZero(*g)] == 0
  ensures [commits to zero] forall x: int {gammasAt(*g, x)} :: gammasAt(*g, x) == 0

// partial sums over the dealers, given by the recurrences below: of the evaluations, of the
// commitments at a point, and the number of dealers that are not corrupt
declare ES(Int): Int
declare PS(Int, Int): Int
declare CNT(Int): Int

define evalsOK(e) = forall i: int {e[i]} :: 0 <= i && i < len(e) ==> e[i] != nil && ref(e[i]) < allocated && field(*e[i])
define gammasOK(g) = forall i: int {g[i]} :: 0 <= i && i < len(g) ==> g[i] != nil && ref(g[i]) < allocated && ref(*g[i]) < allocated && validGammas(*g[i])
fn shc.ComputeEonSecretKeyShare(e) returns (r) props S06 use nopanic
  requires orderSet() && evalsOK(e) && ref(e) < allocated
  requires ES(0) == 0 && forall i: int {e[i]} :: 0 <= i && i < len(e) ==> ES(i + 1) == fadd(ES(i), *e[i])
  modifies
  loopinv ($r: *big.Int, $n: int) fresh($r) && field(*$r) && *$r == ES($n)
  ensures [the sum of the evaluations] r != nil && fresh(r) && ref(r) < allocated && *r == ES(len(e))

define gammaSums(g, x) = PS(x, 0) == 0 && forall i: int {g[i]} :: 0 <= i && i < len(g) ==> PS(x, i + 1) == fadd(PS(x, i), gammasAt(*g[i], x))
fn shc.ComputeEonPublicKeyShare(k, g) returns (r) props S06 use nopanic
  requires 0 <= k && orderSet() && gammasOK(g) && ref(g) < allocated
  requires gammaSums(g, k + 1)
  modifies
  loopinv ($p: *blst.P2, $n: int) fresh($p) && field(*$p) && *$p == PS(k + 1, $n)
  ensures [the sum of the commitments at the keyper's point] r != nil && fresh(r) && ref(r) < allocated && *r == PS(k + 1, len(g))

fn shc.ComputeEonPublicKey(g) returns (r) props S06 use nopanic
  requires orderSet() && gammasOK(g) && ref(g) < allocated
  requires gammaSums(g, 0)
  modifies
  loopinv ($p: *blst.P2, $n: int) fresh($p) && field(*$p) && *$p == PS(0, $n)
  ensures [the sum of the commitments at zero] r != nil && fresh(r) && ref(r) < allocated && *r == PS(0, len(g))

define qualified(p, d) = myEval(p, d) != nil && committed(*myEval(p, d), p.Keyper, *p.Commitments[d], p.Threshold)
fn (*pure.PureDKG).ComputeResult(p) returns (r, err) props S06 use nopanic
  requires dkgInv(p) && p.Keyper < p.NumKeypers && p.Threshold > 0
  requires ES(0) == 0 && forall d: int {ES(d), p.Commitments[d]} :: 0 <= d && d < p.NumKeypers ==> ES(d + 1) == fadd(ES(d), ite(corrupt(p, d), 0, *myEval(p, d)))
  requires forall x: int {PS(x, 0)} :: PS(x, 0) == 0
  requires forall x: int, d: int {PS(x, d), p.Commitments[d]} :: 0 <= d && d < p.NumKeypers ==> PS(x, d + 1) == fadd(PS(x, d), ite(corrupt(p, d), 0, gammasAt(*p.Commitments[d], x)))
  requires CNT(0) == 0 && forall d: int {CNT(d), p.Commitments[d]} :: 0 <= d && d < p.NumKeypers ==> CNT(d + 1) == CNT(d) + ite(corrupt(p, d), 0, 1)
  modifies
  loopinv ($i: uint64) $i <= p.NumKeypers
  loopinv ($n: int, $i: uint64) $n == CNT($i) && 0 <= $n && $n <= $i
  loopinv ($c: []*shc.Gammas, $i: uint64) len($c) == $i && $c != nil && fresh($c) && ref($c) < allocated
  loopinv ($e: []*big.Int, $i: uint64) len($e) == $i && $e != nil && fresh($e) && ref($e) < allocated
  loopinv ($c: []*shc.Gammas) gammasOK($c)
  loopinv ($e: []*big.Int) evalsOK($e)
  loopinv ($c: []*shc.Gammas) forall x: int, j: int {PS(x, j), $c[j]} {old(gammasAt(*p.Commitments[j], x))} :: 0 <= j && j < len($c) ==> gammasAt(*$c[j], x) == ite(old(corrupt(p, j)), 0, old(gammasAt(*p.Commitments[j], x)))
  loopinv ($e: []*big.Int) forall j: int {$e[j]} :: 0 <= j && j < len($e) ==> *$e[j] == ite(old(corrupt(p, j)), 0, old(*myEval(p, j)))
  loopinv ($i: uint64) forall j: int {old(p.Commitments[j])} :: 0 <= j && j < $i && !old(corrupt(p, j)) ==> old(qualified(p, j))
  loopinv ($i: uint64) ES($i) == PS(p.Keyper + 1, $i)
  loopinv ($s: []*shc.EonPublicKeyShare, $i: uint64) len($s) == $i && ($s != nil ==> fresh($s)) && (ref($s) == 0 ==> len($s) == 0) && ref($s) < allocated
  loopinv ($s: []*shc.EonPublicKeyShare) forall j: int {$s[j]} :: 0 <= j && j < len($s) ==> $s[j] != nil && fresh($s[j]) && ref($s[j]) < allocated && *$s[j] == PS(j + 1, p.NumKeypers)
  ensures [a result iff finalized, every dealer not corrupt is known to be honest, and there are enough] (err == nil) <==> (p.Phase >= 4 && CNT(p.NumKeypers) >= p.Threshold && forall d: int {p.Commitments[d]} :: 0 <= d && d < p.NumKeypers && !corrupt(p, d) ==> qualified(p, d))
  ensures [of this eon and keyper] err == nil ==> r.Eon == p.Eon && r.NumKeypers == p.NumKeypers && r.Threshold == p.Threshold && r.Keyper == p.Keyper
  ensures [public key] err == nil ==> r.PublicKey != nil && *r.PublicKey == PS(0, p.NumKeypers)
  ensures [public key shares] err == nil ==> len(r.PublicKeyShares) == p.NumKeypers && forall j: int {r.PublicKeyShares[j]} :: 0 <= j && j < p.NumKeypers ==> r.PublicKeyShares[j] != nil && *r.PublicKeyShares[j] == PS(j + 1, p.NumKeypers)
  ensures [secret key share] err == nil ==> r.SecretKeyShare != nil && *r.SecretKeyShare == ES(p.NumKeypers)
  ensures [the public key share is that of the secret key share] err == nil ==> *r.PublicKeyShares[p.Keyper] == *r.SecretKeyShare
