// The field of the group order, and group elements by their discrete logarithm (S05-S09).
// Points of the groups of prime order q are modelled by their logarithm to the generator, an
// integer in [0, q); zero is the point at infinity. Points outside the group have other integers.
package blst "github.com/supranational/blst/bindings/go"
opaque blst.P1 Int 0
opaque blst.P2 Int 0
opaque blst.P1Affine Int 0
opaque blst.P2Affine Int 0
opaque blst.Scalar Int 0
opaque blst.Fp12 Int 0

// residue modulo the group order, and the field operations
declare R(Int): Int needs field_ax
declare fadd(Int, Int): Int needs field_ax
declare fmul(Int, Int): Int needs field_ax
declare fneg(Int): Int needs field_ax
declare badd(Int, Int): Int needs field_ax
declare bmul(Int, Int): Int needs field_ax
declare bsub(Int, Int): Int needs field_ax
declare emod(Int, Int): Int
smt field_ax
  (assert (forall ((x Int)) (! (and (<= 0 (R x)) (< (R x) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((R x)))))
  (assert (forall ((x Int)) (! (=> (and (<= 0 x) (< x 52435875175126190479447740508185965837690552500527637822603658699938581184513)) (= (R x) x)) :pattern ((R x)))))
  (assert (forall ((x Int) (y Int)) (! (and (<= 0 (fadd x y)) (< (fadd x y) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((fadd x y)))))
  (assert (forall ((x Int) (y Int)) (! (and (<= 0 (fmul x y)) (< (fmul x y) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((fmul x y)))))
  (assert (forall ((x Int)) (! (and (<= 0 (fneg x)) (< (fneg x) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((fneg x)))))
  (assert (forall ((x Int) (y Int)) (! (= (badd x y) (+ x y)) :pattern ((badd x y)))))
  (assert (forall ((x Int) (y Int)) (! (= (bsub x y) (- x y)) :pattern ((bsub x y)))))
  (assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (<= 0 y)) (<= 0 (bmul x y))) :pattern ((bmul x y)))))
  (assert (forall ((x Int) (y Int)) (! (= (R (badd x y)) (fadd (R x) (R y))) :pattern ((R (badd x y))))))
  (assert (forall ((x Int) (y Int)) (! (= (R (bsub x y)) (fadd (R x) (fneg (R y)))) :pattern ((R (bsub x y))))))
  (assert (forall ((x Int) (y Int)) (! (= (R (bmul x y)) (fmul (R x) (R y))) :pattern ((R (bmul x y))))))
  (assert (forall ((x Int) (y Int)) (! (= (fmul x y) (fmul y x)) :pattern ((fmul x y)))))
  (assert (forall ((x Int) (y Int)) (! (= (fadd x y) (fadd y x)) :pattern ((fadd x y)))))
  (assert (forall ((x Int)) (! (= (fadd x 0) (R x)) :pattern ((fadd x 0)))))
  (assert (forall ((x Int)) (! (= (fmul x 1) (R x)) :pattern ((fmul x 1)))))
  (assert (forall ((x Int)) (! (= (fmul x 0) 0) :pattern ((fmul x 0)))))
  (assert (forall ((P Int) (X Int) (r Int) (x Int) (c Int)) (! (= (fadd P (fmul X (fadd (fmul r x) c))) (fadd (fadd P (fmul c X)) (fmul (fmul X x) r))) :pattern ((fadd P (fmul X (fadd (fmul r x) c)))))))

extern big.NewInt(x) returns (r)
  ensures fresh(r) && ref(r) < allocated && *r == x
extern (*big.Int).Set(z, x) returns (r)
  requires z != nil && x != nil
  modifies *z
  ensures r == z && *z == old(*x)
extern (*big.Int).Add(z, x, y) returns (r)
  requires z != nil && x != nil && y != nil
  modifies *z
  ensures r == z && *z == badd(old(*x), old(*y))
extern (*big.Int).Sub(z, x, y) returns (r)
  requires z != nil && x != nil && y != nil
  modifies *z
  ensures r == z && *z == bsub(old(*x), old(*y))
extern (*big.Int).Mul(z, x, y) returns (r)
  requires z != nil && x != nil && y != nil
  modifies *z
  ensures r == z && *z == bmul(old(*x), old(*y))
extern (*big.Int).Mod(z, x, y) returns (r)
  requires z != nil && x != nil && y != nil && *y != 0
  modifies *z
  ensures r == z && *z == ite(old(*y) == qOrder, R(old(*x)), emod(old(*x), old(*y)))

// big-endian bytes of a number below 2^256
extern (*big.Int).FillBytes(z, buf) returns (r)
  requires z != nil && 0 <= *z && *z < 115792089237316195423570985008687907853269984665640564039457584007913129639936 && len(buf) == 32
  modifies elems(buf)
  ensures r == buf && os2i(content(buf)) == *z
extern (*blst.Scalar).FromBEndian(s, b) returns (r)
  requires s != nil && len(b) == 32
  modifies *s
  ensures *s == R(os2i(content(b)))

extern (*blst.P2).FromAffine(p, a)
  requires p != nil && a != nil
  modifies *p
  ensures *p == *a
extern (*blst.P2).ToAffine(p) returns (a)
  requires p != nil
  ensures a != nil && fresh(a) && ref(a) < allocated && *a == *p
extern (*blst.P2).MultAssign(p, s, o) returns (r)
  requires p != nil && istype(s, *blst.Scalar) && as(s, *blst.Scalar) != nil && len(o) == 0
  requires 0 <= *p && *p < qOrder
  modifies *p
  ensures r == p && *p == fmul(old(*p), *as(s, *blst.Scalar))
extern (*blst.P2).Mult(p, s, o) returns (r)
  requires p != nil && istype(s, *blst.Scalar) && as(s, *blst.Scalar) != nil && len(o) == 0
  requires 0 <= *p && *p < qOrder
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == fmul(*p, *as(s, *blst.Scalar))
extern (*blst.P2).AddAssign(p, o) returns (r)
  requires p != nil && 0 <= *p && *p < qOrder
  requires (istype(o, *blst.P2) && as(o, *blst.P2) != nil && 0 <= *as(o, *blst.P2) && *as(o, *blst.P2) < qOrder) || (istype(o, *blst.P2Affine) && as(o, *blst.P2Affine) != nil && 0 <= *as(o, *blst.P2Affine) && *as(o, *blst.P2Affine) < qOrder)
  modifies *p
  ensures r == p && *p == fadd(old(*p), ite(istype(o, *blst.P2), old(*as(o, *blst.P2)), *as(o, *blst.P2Affine)))
extern blst.P2Generator() returns (r)
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == 1
extern (*blst.P2Affine).Equals(p, o) returns (r)
  requires p != nil && o != nil
  ensures r <==> *p == *o

// powers, and the sum of c[i] * x^i over a list of pointers to coefficients (numbers or points)
declare pw(Int, Int): Int needs sum_ax
declare sumAt((Array Int Int), Int, Int, (Array Int Int), Int): Int needs sum_ax
declare sdiff((Array Int Int), Int, (Array Int Int), Int, Int, (Array Int Int), (Array Int Int)): Int needs sum_ax
smt sum_ax
  (assert (forall ((x Int)) (! (= (pw x 0) 1) :pattern ((pw x 0)))))
  (assert (forall ((x Int) (n Int)) (! (and (<= 0 (pw x n)) (< (pw x n) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((pw x n)))))
  (assert (forall ((x Int) (n Int)) (! (=> (<= 0 n) (= (pw x (+ n 1)) (fmul (pw x n) x))) :pattern ((fmul (pw x n) x)))))
  (assert (forall ((a (Array Int Int)) (o Int) (h (Array Int Int)) (x Int)) (! (= (sumAt a o 0 h x) 0) :pattern ((sumAt a o 0 h x)))))
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (h (Array Int Int)) (x Int)) (! (and (<= 0 (sumAt a o n h x)) (< (sumAt a o n h x) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((sumAt a o n h x)))))
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (h (Array Int Int)) (x Int)) (! (=> (<= 0 n) (= (sumAt a o (+ n 1) h x) (fadd (sumAt a o n h x) (fmul (R (select h (select a (ix o n)))) (pw x n))))) :pattern ((sumAt a o n h x) (pw x n)))))
  (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int) (h (Array Int Int)) (g (Array Int Int)) (x Int)) (! (or (= (sumAt a o n h x) (sumAt b p n g x)) (and (<= 0 (sdiff a o b p n h g)) (< (sdiff a o b p n h g) n) (not (= (R (select h (select a (ix o (sdiff a o b p n h g))))) (R (select g (select b (ix p (sdiff a o b p n h g))))))))) :pattern ((sumAt a o n h x) (sumAt b p n g x)))))
// the sum is zero when every coefficient is
declare zdiff((Array Int Int), Int, Int, (Array Int Int)): Int needs zsum_ax
smt zsum_ax
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (h (Array Int Int)) (x Int)) (! (or (= (sumAt a o n h x) 0) (and (<= 0 (zdiff a o n h)) (< (zdiff a o n h) n) (not (= (R (select h (select a (ix o (zdiff a o n h))))) 0)))) :pattern ((sumAt a o n h x)))))
define polyAt(p, x) = sumAt(elems(p), off(p), len(p), cells(big.Int), x)
define gammasAt(g, x) = sumAt(elems(g), off(g), len(g), cells(blst.P2Affine), x)

fn shc.bigToScalar(i) returns (s) props S07 use nopanic
  requires i != nil && 0 <= *i && *i < 115792089237316195423570985008687907853269984665640564039457584007913129639936
  modifies
  ensures [the number modulo the order] s != nil && fresh(s) && ref(s) < allocated && *s == R(*i)
fn shc.generateP2(i) returns (p) props S07 use nopanic
  requires i != nil && 0 <= *i && *i < 115792089237316195423570985008687907853269984665640564039457584007913129639936
  modifies
  ensures [the generator to this power] p != nil && fresh(p) && ref(p) < allocated && *p == R(*i)
fn shc.KeyperX(k) returns (x) props S07 use nopanic
  modifies
  ensures [one more than the index] x != nil && fresh(x) && ref(x) < allocated && *x == k + 1

define validPoly(p) = len(p) > 0 && forall i: int :: 0 <= i && i < len(p) ==> p[i] != nil && ref(p[i]) < allocated && 0 <= *p[i] && *p[i] < qOrder
fn (*shc.Polynomial).Eval(p, x) returns (r) props S07 use nopanic
  requires p != nil && x != nil && validPoly(*p) && orderSet() && 0 <= *x && *x < qOrder
  modifies
  loopinv ($r: *big.Int, $i: int) fresh($r) && 0 <= *$r && *$r < qOrder && -1 <= $i && $i < len(*p) - 1 && fadd(sumAt(elems(*p), off(*p), $i + 1, old(cells(big.Int)), *x), fmul(pw(*x, $i + 1), *$r)) == old(polyAt(*p, *x))
  ensures [the value of the polynomial] r != nil && fresh(r) && ref(r) < allocated && *r == old(polyAt(*p, *x))

fn (*shc.Polynomial).EvalForKeyper(p, k) returns (r) props S07 use nopanic
  requires p != nil && validPoly(*p) && orderSet() && 0 <= k
  modifies
  ensures [the value at the keyper's point] r != nil && fresh(r) && ref(r) < allocated && *r == old(polyAt(*p, k + 1))
  ensures [an element of the field] 0 <= *r && *r < qOrder

fn shc.NewPolynomial(c) returns (p, err) props S07 use nopanic
  requires orderSet() && forall i: int :: 0 <= i && i < len(c) ==> c[i] != nil && ref(c[i]) < allocated
  modifies
  loopinv ($n: int) forall i: int :: 0 <= i && i < $n ==> 0 <= *c[i] && *c[i] < qOrder
  ensures [accepted iff every coefficient is a field element] (err == nil) <==> (len(c) > 0 && forall i: int :: 0 <= i && i < len(c) ==> 0 <= *c[i] && *c[i] < qOrder)
  ensures [these coefficients] err == nil ==> p != nil && fresh(p) && ref(p) < allocated && *p == c

// randomness: an arbitrary field element
package rand "crypto/rand"
extern rand.Int(r, max) returns (n, err)
  requires max != nil && *max > 0
  modifies
  ensures err == nil ==> n != nil && fresh(n) && ref(n) < allocated && 0 <= *n && *n < *max
fn shc.RandomPolynomial(r, d) returns (p, err) props S07 use nopanic
  requires orderSet() && d < 4611686018427387904
  modifies
  loopinv ($c: []*big.Int, $i: uint64) $i <= d + 1 && $c != nil && fresh($c) && ref($c) < allocated && len($c) == $i && forall j: int :: 0 <= j && j < len($c) ==> $c[j] != nil && ref($c[j]) < allocated && 0 <= *$c[j] && *$c[j] < qOrder
  ensures [of the given degree] err == nil ==> p != nil && fresh(p) && ref(p) < allocated && ref(*p) < allocated && fresh(*p) && validPoly(*p) && len(*p) == d + 1

define inGroup(x) = 0 <= x && x < qOrder
define validGammas(g) = forall i: int :: 0 <= i && i < len(g) ==> g[i] != nil && ref(g[i]) < allocated && inGroup(*g[i])
fn (*shc.Polynomial).Gammas(p) returns (g) props S07 use nopanic
  requires p != nil && validPoly(*p) && orderSet()
  modifies
  loopinv ($g: *shc.Gammas, $n: int) fresh($g) && *$g != nil && fresh(*$g) && len(*$g) == $n && forall i: int :: 0 <= i && i < $n ==> (*$g)[i] != nil && fresh((*$g)[i]) && ref((*$g)[i]) < allocated && *(*$g)[i] == *(*p)[i]
  ensures [the generator to each coefficient] g != nil && fresh(g) && ref(g) < allocated && len(*g) == len(*p) && validGammas(*g) && forall i: int :: 0 <= i && i < len(*g) ==> *(*g)[i] == *(*p)[i]

fn (*shc.Gammas).Pi(g, x) returns (r) props S07 use nopanic
  requires g != nil && x != nil && validGammas(*g) && orderSet() && 0 <= *x && *x < qOrder
  modifies
  loopinv ($r: *blst.P2, $y: *big.Int, $n: int) fresh($r) && fresh($y) && *$y == pw(*x, $n) && *$r == sumAt(elems(*g), off(*g), $n, old(cells(blst.P2Affine)), *x)
  ensures [the commitment evaluated at the point] r != nil && fresh(r) && ref(r) < allocated && *r == old(gammasAt(*g, *x))

fn shc.VerifyPolyEval(k, v, g, t) returns (r) props S07 use nopanic
  requires 0 <= k && v != nil && g != nil && validGammas(*g) && orderSet() && 0 <= *v && *v < qOrder
  modifies
  ensures [iff it is the value committed to, for a commitment of the right degree] r <==> len(*g) == t && *v == gammasAt(*g, k + 1)

lemma honestDealing(p: shc.Polynomial, g: shc.Gammas, x: int) props S07
  requires validPoly(p) && len(g) == len(p) && 0 <= x
  requires forall i: int :: 0 <= i && i < len(g) ==> *g[i] == *p[i]
  ensures [a commitment at a point is the generator to the value of its polynomial] gammasAt(g, x) == polyAt(p, x)
