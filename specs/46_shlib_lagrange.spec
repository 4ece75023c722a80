// Epoch key shares and their combination (S08).
declare finv(Int): Int needs field_ax,finv_ax
smt finv_ax
  (assert (forall ((x Int)) (! (and (<= 0 (finv x)) (< (finv x) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((finv x)))))
  (assert (forall ((x Int)) (! (=> (and (< 0 x) (< x 52435875175126190479447740508185965837690552500527637822603658699938581184513)) (= (fmul x (finv x)) 1)) :pattern ((finv x)))))
// the power q-2 is the inverse of a field element (and zero of zero)
extern (*big.Int).Exp(z, x, y, m) returns (r)
  requires z != nil && x != nil && y != nil && m != nil && *m == qOrder && *y == qOrder - 2
  modifies *z
  ensures r == z && *z == finv(R(old(*x)))
extern (*blst.P1).FromAffine(p, a)
  requires p != nil && a != nil
  modifies *p
  ensures *p == *a
extern (*blst.P1).ToAffine(p) returns (a)
  requires p != nil
  modifies
  ensures a != nil && fresh(a) && ref(a) < allocated && *a == *p
extern (*blst.P1).MultAssign(p, s, o) returns (r)
  requires p != nil && istype(s, *blst.Scalar) && as(s, *blst.Scalar) != nil && len(o) == 0
  requires 0 <= *p && *p < qOrder
  modifies *p
  ensures r == p && *p == fmul(old(*p), *as(s, *blst.Scalar))
extern (*blst.P1).AddAssign(p, o) returns (r)
  requires p != nil && 0 <= *p && *p < qOrder
  requires (istype(o, *blst.P1) && as(o, *blst.P1) != nil && 0 <= *as(o, *blst.P1) && *as(o, *blst.P1) < qOrder) || (istype(o, *blst.P1Affine) && as(o, *blst.P1Affine) != nil && 0 <= *as(o, *blst.P1Affine) && *as(o, *blst.P1Affine) < qOrder)
  modifies *p
  ensures r == p && *p == fadd(old(*p), ite(istype(o, *blst.P1), old(*as(o, *blst.P1)), *as(o, *blst.P1Affine)))

// one factor of a Lagrange coefficient, and the coefficient for index j among n indices
declare lfac(Int, Int): Int needs lag_ax
declare lagr((Array Int Int), Int, Int, Int): Int needs lag_ax
// the sum over n shares of share times coefficient (pointers to shares; pointers to coefficients or indices)
declare wsum((Array Int Int), Int, (Array Int Int), (Array Int Int), Int, (Array Int Int), Int): Int needs lag_ax
declare ksum((Array Int Int), Int, (Array Int Int), (Array Int Int), Int, Int, Int): Int needs lag_ax
declare kwdiff((Array Int Int), Int, (Array Int Int), (Array Int Int), Int, (Array Int Int), (Array Int Int), Int, Int): Int needs lag_ax
smt lag_ax
  (assert (forall ((k Int) (j Int)) (! (= (lfac k j) (fmul (R (+ k 1)) (finv (fadd (R (+ k 1)) (fneg (R (+ j 1))))))) :pattern ((lfac k j)))))
  (assert (forall ((e (Array Int Int)) (f Int) (n Int) (j Int)) (! (and (<= 0 (lagr e f n j)) (< (lagr e f n j) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((lagr e f n j)))))
  (assert (forall ((e (Array Int Int)) (f Int) (j Int)) (! (= (lagr e f 0 j) 1) :pattern ((lagr e f 0 j)))))
  (assert (forall ((e (Array Int Int)) (f Int) (n Int) (j Int)) (! (=> (<= 0 n) (= (lagr e f (+ n 1) j) (ite (= (select e (ix f n)) j) (lagr e f n j) (fmul (lagr e f n j) (lfac (select e (ix f n)) j))))) :pattern ((lagr e f n j) (select e (ix f n))))))
  (assert (forall ((s (Array Int Int)) (p Int) (h (Array Int Int)) (l (Array Int Int)) (o Int) (g (Array Int Int))) (! (= (wsum s p h l o g 0) 0) :pattern ((wsum s p h l o g 0)))))
  (assert (forall ((s (Array Int Int)) (p Int) (h (Array Int Int)) (l (Array Int Int)) (o Int) (g (Array Int Int)) (n Int)) (! (and (<= 0 (wsum s p h l o g n)) (< (wsum s p h l o g n) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((wsum s p h l o g n)))))
  (assert (forall ((s (Array Int Int)) (p Int) (h (Array Int Int)) (l (Array Int Int)) (o Int) (g (Array Int Int)) (n Int)) (! (=> (<= 0 n) (= (wsum s p h l o g (+ n 1)) (fadd (wsum s p h l o g n) (fmul (select h (select s (ix p n))) (R (select g (select l (ix o n)))))))) :pattern ((wsum s p h l o g n) (select s (ix p n))))))
  (assert (forall ((s (Array Int Int)) (p Int) (h (Array Int Int)) (l (Array Int Int)) (o Int) (g (Array Int Int)) (e (Array Int Int)) (f Int) (n Int)) (! (or (= (wsum s p h l o g n) (ksum s p h e f n n)) (and (<= 0 (kwdiff s p h l o g e f n)) (< (kwdiff s p h l o g e f n) n) (not (= (R (select g (select l (ix o (kwdiff s p h l o g e f n))))) (lagr e f n (select e (ix f (kwdiff s p h l o g e f n)))))))) :pattern ((wsum s p h l o g n) (ksum s p h e f n n)))))

define inField(i) = 0 <= i && i < 9223372036854775807
fn shc.invert(x) returns (r) props S08 use nopanic
  requires x != nil && orderSet()
  modifies
  ensures [the inverse] r != nil && fresh(r) && ref(r) < allocated && *r == finv(R(*x))
fn shc.lagrangeCoefficientFactor(k, j) returns (r) props S08 use nopanic
  requires orderSet() && inField(k) && inField(j)
  modifies
  ensures [the factor] r != nil && fresh(r) && ref(r) < allocated && *r == lfac(k, j)
fn shc.lagrangeCoefficient(j, ks) returns (r) props S08 use nopanic
  requires orderSet() && inField(j) && forall i: int :: 0 <= i && i < len(ks) ==> inField(ks[i])
  modifies
  loopinv ($lambda: *big.Int, $n: int) $lambda != nil && fresh($lambda) && ref($lambda) < allocated && *$lambda == lagr(elems(ks), off(ks), $n, j)
  ensures [the coefficient] r != nil && fresh(r) && ref(r) < allocated && *r == lagr(elems(ks), off(ks), len(ks), j)
fn shc.NewLagrangeCoeffs(ks) returns (r) props S08 use nopanic
  requires orderSet() && forall i: int :: 0 <= i && i < len(ks) ==> inField(ks[i])
  modifies
  loopinv ($lambdas: []*big.Int, $n: int) fresh($lambdas) && len($lambdas) == len(ks) && forall i: int :: 0 <= i && i < $n ==> $lambdas[i] != nil && fresh($lambdas[i]) && ref($lambdas[i]) < allocated && *$lambdas[i] == lagr(elems(ks), off(ks), len(ks), ks[i])
  ensures [one coefficient per index] r != nil && fresh(r) && len(r.lambdas) == len(ks) && forall i: int :: 0 <= i && i < len(ks) ==> r.lambdas[i] != nil && ref(r.lambdas[i]) < allocated && *r.lambdas[i] == lagr(elems(ks), off(ks), len(ks), ks[i])

define validShares(s) = forall i: int :: 0 <= i && i < len(s) ==> s[i] != nil && ref(s[i]) < allocated && inGroup(*s[i])
fn (*shc.LagrangeCoeffs).ComputeEpochSecretKey(lc, s) returns (r, err) props S08 use nopanic
  requires lc != nil && validShares(s) && forall i: int :: 0 <= i && i < len(lc.lambdas) ==> lc.lambdas[i] != nil && ref(lc.lambdas[i]) < allocated && inGroup(*lc.lambdas[i])
  modifies
  loopinv ($p: *blst.P1, $n: int) $p != nil && fresh($p) && ref($p) < allocated && *$p == wsum(elems(s), off(s), old(cells(blst.P1Affine)), elems(lc.lambdas), off(lc.lambdas), old(cells(big.Int)), $n)
  ensures [refused unless one share per coefficient] (err == nil) <==> len(s) == len(lc.lambdas)
  ensures [the weighted sum] err == nil ==> r != nil && fresh(r) && ref(r) < allocated && *r == wsum(elems(s), off(s), old(cells(blst.P1Affine)), elems(lc.lambdas), off(lc.lambdas), old(cells(big.Int)), len(s))
fn shc.ComputeEpochSecretKey(ks, s, t) returns (r, err) props S08 use nopanic
  requires orderSet() && validShares(s) && forall i: int :: 0 <= i && i < len(ks) ==> inField(ks[i])
  modifies
  ensures [refused unless a threshold of shares with their indices] (err == nil) <==> (len(ks) == len(s) && len(s) == t)
  ensures [the shares weighted by their coefficients] err == nil ==> r != nil && *r == ksum(elems(s), off(s), old(cells(blst.P1Affine)), elems(ks), off(ks), len(s), len(s))
fn shc.ComputeEpochSecretKeyShare(k, id) returns (r) props S08 use nopanic
  requires k != nil && id != nil && inGroup(*k) && inGroup(*id)
  modifies
  ensures [the epoch id raised to the secret share] r != nil && fresh(r) && ref(r) < allocated && *r == fmul(*id, *k)

// Lagrange interpolation: shares that are values of a polynomial with at most as many coefficients
// combine to its value at zero (the functions ibad, idup1, idup2, inot name what could be wrong)
declare ibad((Array Int Int), Int, Int): Int needs interp_ax
declare idup1((Array Int Int), Int, Int): Int needs interp_ax
declare idup2((Array Int Int), Int, Int): Int needs interp_ax
declare inot((Array Int Int), Int, Int, (Array Int Int), (Array Int Int), Int, (Array Int Int), (Array Int Int), Int, Int, Int): Int needs interp_ax
declare interpolation(): Bool needs interp_ax
smt interp_ax
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (h (Array Int Int)) (s (Array Int Int)) (p Int) (hs (Array Int Int)) (e (Array Int Int)) (f Int) (m Int) (k Int)) (! (or (not (<= n m)) (and (<= 0 (ibad e f m)) (< (ibad e f m) m) (not (and (<= 0 (select e (ix f (ibad e f m)))) (< (select e (ix f (ibad e f m))) 9223372036854775807)))) (and (<= 0 (idup1 e f m)) (< (idup1 e f m) m) (<= 0 (idup2 e f m)) (< (idup2 e f m) m) (not (= (idup1 e f m) (idup2 e f m))) (= (select e (ix f (idup1 e f m))) (select e (ix f (idup2 e f m))))) (and (<= 0 (inot a o n h s p hs e f m k)) (< (inot a o n h s p hs e f m k) m) (not (= (select hs (select s (ix p (inot a o n h s p hs e f m k)))) (fmul k (sumAt a o n h (+ (select e (ix f (inot a o n h s p hs e f m k))) 1)))))) (= (ksum s p hs e f m m) (fmul k (sumAt a o n h 0)))) :pattern ((ksum s p hs e f m m) (fmul k (sumAt a o n h 0))))))
lemma thresholdCombines(ks: []int, s: []*shc.EpochSecretKeyShare, p: shc.Polynomial, id: int, r: int) props S08
  requires interpolation() && validShares(s) && validPoly(p) && len(ks) == len(s) && len(p) <= len(s)
  requires forall i: int :: 0 <= i && i < len(ks) ==> inField(ks[i])
  requires [distinct keypers] forall i: int, j: int :: 0 <= i && i < len(ks) && 0 <= j && j < len(ks) && i != j ==> ks[i] != ks[j]
  requires [each share is the epoch id raised to the value of the polynomial for its keyper] forall i: int :: 0 <= i && i < len(s) ==> *s[i] == fmul(id, polyAt(p, ks[i] + 1))
  requires [what ComputeEpochSecretKey returns] r == ksum(elems(s), off(s), cells(blst.P1Affine), elems(ks), off(ks), len(s), len(s))
  ensures [the epoch id raised to the shared secret] r == fmul(id, polyAt(p, 0))
