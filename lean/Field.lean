/- The axioms that the specifications use about the field of the group order (field_ax, finv_ax, sum_ax,
zsum_ax, lag_ax, interp_ax in specs/*.spec), proved for the functions they are meant to be. -/
import Mathlib.NumberTheory.LucasPrimality
import Mathlib.LinearAlgebra.Lagrange
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Data.ZMod.Basic
import Mathlib.Tactic

def q : ℕ := 52435875175126190479447740508185965837690552500527637822603658699938581184513

/-- square and multiply -/
def pm (m : ℕ) : ℕ → ℕ → ℕ → ℕ
  | 0, _, _ => 1 % m
  | k+1, a, e => if e = 0 then 1 % m else
      let h := pm m k (a * a % m) (e / 2)
      if e % 2 = 1 then a * h % m else h

theorem pm_eq (m : ℕ) (k a e : ℕ) (h : e < 2 ^ k) : pm m k a e = a ^ e % m := by
  induction k generalizing a e with
  | zero => simp at h; subst h; simp [pm]
  | succ k ih =>
    unfold pm
    split
    · next h0 => subst h0; simp
    · have h2 : e / 2 < 2 ^ k := by omega
      rw [ih _ _ h2]
      have e2 : a ^ e = (a * a) ^ (e / 2) * a ^ (e % 2) := by
        rw [← pow_two, ← pow_mul, ← pow_add]; congr 1; omega
      rcases Nat.mod_two_eq_zero_or_one e with h3 | h3
      · simp only [h3]; rw [e2, h3]; simp [Nat.pow_mod]
      · simp only [h3]; rw [e2, h3]
        simp only [if_true, pow_one]
        rw [Nat.mul_comm]; simp [Nat.pow_mod, Nat.mul_mod]

theorem pow7 (e : ℕ) (h : e < 2 ^ 260) : ((7 : ZMod q) ^ e = 1) ↔ pm q 260 7 e = 1 := by
  rw [pm_eq q 260 7 e h]
  have : ((7 : ZMod q) ^ e) = ((7 ^ e : ℕ) : ZMod q) := by push_cast; rfl
  rw [this, show (1 : ZMod q) = ((1 : ℕ) : ZMod q) by simp, ZMod.natCast_eq_natCast_iff']
  have : 1 % q = 1 := by decide
  rw [this]

theorem q_prime : Nat.Prime q := by
  apply lucas_primality q (7 : ZMod q)
  · rw [pow7 _ (by decide +kernel)]; decide +kernel
  · intro p hp hd
    have hf : q - 1 = 2^32 * 3 * 11 * 19 * 10177 * 125527 * 859267 * 906349^2 * 2508409 * 2529403 * 52437899 * 254760293^2 := by decide +kernel
    have hm : p ∈ [2,3,11,19,10177,125527,859267,906349,2508409,2529403,52437899,254760293] := by
      rw [hf] at hd
      simp only [Nat.Prime.dvd_mul hp] at hd
      have pr : ∀ r, Nat.Prime r → p ∣ r → p = r := fun r hr h => (Nat.prime_dvd_prime_iff_eq hp hr).mp h
      rcases hd with ((((((((((( hd | hd) | hd) | hd) | hd) | hd) | hd) | hd) | hd) | hd) | hd) | hd)
      all_goals (first | (have := pr _ (by norm_num) (hp.dvd_of_dvd_pow hd); subst this; decide) | (have := pr _ (by norm_num) hd; subst this; decide))
    have hb : (q - 1) / p < 2 ^ 260 := lt_of_le_of_lt (Nat.div_le_self _ _) (by decide +kernel)
    rw [Ne, pow7 _ hb]
    fin_cases hm <;> decide +kernel

instance : Fact (Nat.Prime q) := ⟨q_prime⟩

abbrev Q : ℤ := 52435875175126190479447740508185965837690552500527637822603658699938581184513
theorem Q_eq : Q = (q : ℤ) := by decide +kernel
theorem Q_pos : 0 < Q := by decide +kernel

/-- arrays of the verifier -/
abbrev Arr := ℤ → ℤ
def ix (o i : ℤ) : ℤ := o + i

def R (x : ℤ) : ℤ := x % Q
def fadd (x y : ℤ) : ℤ := (x + y) % Q
def fmul (x y : ℤ) : ℤ := (x * y) % Q
def fneg (x : ℤ) : ℤ := (-x) % Q
def badd (x y : ℤ) : ℤ := x + y
def bsub (x y : ℤ) : ℤ := x - y
def bmul (x y : ℤ) : ℤ := x * y

theorem rng (x : ℤ) : 0 ≤ x % Q ∧ x % Q < Q := ⟨Int.emod_nonneg _ Q_pos.ne', Int.emod_lt_of_pos _ Q_pos⟩

/-- the value as an element of the field -/
abbrev c (x : ℤ) : ZMod q := (x : ZMod q)
theorem cmod (x : ℤ) : c (x % Q) = c x := by
  rw [Q_eq]; exact ZMod.intCast_mod x q
theorem cinj {x y : ℤ} (hx : 0 ≤ x ∧ x < Q) (hy : 0 ≤ y ∧ y < Q) (h : c x = c y) : x = y := by
  have := (ZMod.intCast_eq_intCast_iff' x y q).mp h
  rw [← Q_eq, Int.emod_eq_of_lt hx.1 hx.2, Int.emod_eq_of_lt hy.1 hy.2] at this
  exact this

-- field_ax
theorem field_ax_1 (x : ℤ) : 0 ≤ R x ∧ R x < Q := rng _
theorem field_ax_2 (x : ℤ) (h : 0 ≤ x ∧ x < Q) : R x = x := Int.emod_eq_of_lt h.1 h.2
theorem field_ax_3 (x y : ℤ) : 0 ≤ fadd x y ∧ fadd x y < Q := rng _
theorem field_ax_4 (x y : ℤ) : 0 ≤ fmul x y ∧ fmul x y < Q := rng _
theorem field_ax_5 (x : ℤ) : 0 ≤ fneg x ∧ fneg x < Q := rng _
theorem field_ax_6 (x y : ℤ) : badd x y = x + y := rfl
theorem field_ax_7 (x y : ℤ) : bsub x y = x - y := rfl
theorem field_ax_8 (x y : ℤ) (hx : 0 ≤ x) (hy : 0 ≤ y) : 0 ≤ bmul x y := mul_nonneg hx hy
theorem field_ax_9 (x y : ℤ) : R (badd x y) = fadd (R x) (R y) := by
  simp [R, badd, fadd, Int.add_emod]
theorem field_ax_11 (x y : ℤ) : R (bmul x y) = fmul (R x) (R y) := by
  simp [R, bmul, fmul, Int.mul_emod]
theorem field_ax_12 (x y : ℤ) : fmul x y = fmul y x := by simp [fmul, mul_comm]
theorem field_ax_13 (x y : ℤ) : fadd x y = fadd y x := by simp [fadd, add_comm]
theorem field_ax_14 (x : ℤ) : fadd x 0 = R x := by simp [fadd, R]
theorem field_ax_15 (x : ℤ) : fmul x 1 = R x := by simp [fmul, R]
theorem field_ax_16 (x : ℤ) : fmul x 0 = 0 := by simp [fmul]

theorem cadd (x y : ℤ) : c (fadd x y) = c x + c y := by unfold fadd; rw [cmod]; simp [c]
theorem cmul (x y : ℤ) : c (fmul x y) = c x * c y := by unfold fmul; rw [cmod]; simp [c]
theorem cneg (x : ℤ) : c (fneg x) = - c x := by unfold fneg; rw [cmod]; simp [c]
theorem cR (x : ℤ) : c (R x) = c x := cmod x

theorem field_ax_10 (x y : ℤ) : R (bsub x y) = fadd (R x) (fneg (R y)) :=
  cinj (rng _) (rng _) (by rw [cR, cadd, cneg, cR, cR]; simp [bsub, c, sub_eq_add_neg])
theorem field_ax_17 (P X r x k : ℤ) :
    fadd P (fmul X (fadd (fmul r x) k)) = fadd (fadd P (fmul k X)) (fmul (fmul X x) r) :=
  cinj (rng _) (rng _) (by simp only [cadd, cmul]; ring)

-- finv_ax
def finv (x : ℤ) : ℤ := (((c x)⁻¹ : ZMod q).val : ℤ)
theorem finv_ax_1 (x : ℤ) : 0 ≤ finv x ∧ finv x < Q :=
  ⟨Int.natCast_nonneg _, by rw [Q_eq]; exact Int.ofNat_lt.mpr (ZMod.val_lt _)⟩
theorem cinv (x : ℤ) : c (finv x) = (c x)⁻¹ := by simp [finv, c]
theorem c_ne {x : ℤ} (h : 0 < x ∧ x < Q) : c x ≠ 0 := by
  intro h0
  have := cinj (x := x) (y := 0) ⟨h.1.le, h.2⟩ ⟨le_refl _, Q_pos⟩ (by simpa [c] using h0)
  omega
theorem finv_ax_2 (x : ℤ) (h : 0 < x ∧ x < Q) : fmul x (finv x) = 1 :=
  cinj (rng _) ⟨by norm_num, by norm_num⟩ (by rw [cmul, cinv, mul_inv_cancel₀ (c_ne h)]; simp [c])
/-- the assumed contract of big.Int.Exp with exponent q-2 -/
theorem exp_is_inverse (x : ℤ) : R x ^ (q - 2) % Q = finv (R x) := by
  refine cinj (rng _) (finv_ax_1 _) ?_
  rw [cmod, cinv, cR]
  have e : c (R x ^ (q - 2)) = (c x) ^ (q - 2) := by rw [← cR x]; simp [c]
  rw [e]
  by_cases h : c x = 0
  · rw [h]
    have : q - 2 ≠ 0 := by decide +kernel
    simp [this]
  · have h1 := ZMod.pow_card_sub_one_eq_one h
    have h2 : (c x) ^ (q - 2) * c x = 1 := by
      rw [← pow_succ]
      have : q - 2 + 1 = q - 1 := by decide +kernel
      rw [this]; exact h1
    exact eq_inv_of_mul_eq_one_left h2

-- sum_ax
open Finset
def pw (x n : ℤ) : ℤ := x ^ n.toNat % Q
def sumAt (a : Arr) (o n : ℤ) (h : Arr) (x : ℤ) : ℤ :=
  (∑ i ∈ range n.toNat, R (h (a (ix o i))) * x ^ i) % Q
theorem sum_ax_1 (x : ℤ) : pw x 0 = 1 := by simp [pw, Q]
theorem sum_ax_2 (x n : ℤ) : 0 ≤ pw x n ∧ pw x n < Q := rng _
theorem succ_toNat {n : ℤ} (h : 0 ≤ n) : (n + 1).toNat = n.toNat + 1 := by omega
theorem cpw (x n : ℤ) : c (pw x n) = c x ^ n.toNat := by unfold pw; rw [cmod]; simp [c]
theorem sum_ax_3 (x n : ℤ) (h : 0 ≤ n) : pw x (n + 1) = fmul (pw x n) x :=
  cinj (rng _) (rng _) (by rw [cmul, cpw, cpw, succ_toNat h, pow_succ])
theorem sum_ax_4 (a : Arr) (o : ℤ) (h : Arr) (x : ℤ) : sumAt a o 0 h x = 0 := by simp [sumAt]
theorem sum_ax_5 (a : Arr) (o n : ℤ) (h : Arr) (x : ℤ) : 0 ≤ sumAt a o n h x ∧ sumAt a o n h x < Q := rng _
theorem csum (a : Arr) (o n : ℤ) (h : Arr) (x : ℤ) :
    c (sumAt a o n h x) = ∑ i ∈ range n.toNat, c (h (a (ix o i))) * c x ^ i := by
  unfold sumAt; rw [cmod]; simp only [c]; push_cast
  refine sum_congr rfl fun i _ => ?_
  rw [show ((R (h (a (ix o i))) : ℤ) : ZMod q) = c (h (a (ix o i))) from cR _]
theorem sum_ax_6 (a : Arr) (o n : ℤ) (h : Arr) (x : ℤ) (hn : 0 ≤ n) :
    sumAt a o (n + 1) h x = fadd (sumAt a o n h x) (fmul (R (h (a (ix o n)))) (pw x n)) :=
  cinj (rng _) (rng _) (by
    rw [cadd, cmul, csum, csum, cpw, cR, succ_toNat hn, sum_range_succ, Int.toNat_of_nonneg hn])
theorem ex_sdiff : ∃ sdiff : Arr → ℤ → Arr → ℤ → ℤ → Arr → Arr → ℤ, ∀ a o b p n h g x,
    sumAt a o n h x = sumAt b p n g x ∨
    (0 ≤ sdiff a o b p n h g ∧ sdiff a o b p n h g < n ∧
      ¬ R (h (a (ix o (sdiff a o b p n h g)))) = R (g (b (ix p (sdiff a o b p n h g))))) := by
  classical
  refine ⟨fun a o b p n h g =>
    if e : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ R (h (a (ix o i))) = R (g (b (ix p i))) then e.choose else 0, ?_⟩
  intro a o b p n h g x
  by_cases e : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ R (h (a (ix o i))) = R (g (b (ix p i)))
  · right; simp only [dif_pos e]; exact e.choose_spec
  · left
    push Not at e
    unfold sumAt; congr 1
    refine sum_congr rfl fun i hi => ?_
    rw [e i (by omega) (by have := mem_range.mp hi; omega)]
-- zsum_ax
theorem ex_zdiff : ∃ zdiff : Arr → ℤ → ℤ → Arr → ℤ, ∀ a o n h x,
    sumAt a o n h x = 0 ∨
    (0 ≤ zdiff a o n h ∧ zdiff a o n h < n ∧ ¬ R (h (a (ix o (zdiff a o n h)))) = 0) := by
  classical
  refine ⟨fun a o n h =>
    if e : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ R (h (a (ix o i))) = 0 then e.choose else 0, ?_⟩
  intro a o n h x
  by_cases e : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ R (h (a (ix o i))) = 0
  · right; simp only [dif_pos e]; exact e.choose_spec
  · left
    push Not at e
    unfold sumAt
    rw [sum_eq_zero]; · simp
    intro i hi
    rw [e i (by omega) (by have := mem_range.mp hi; omega)]; simp

-- lag_ax
def lfac (k j : ℤ) : ℤ := fmul (R (k + 1)) (finv (fadd (R (k + 1)) (fneg (R (j + 1)))))
def lagr (e : Arr) (f n j : ℤ) : ℤ :=
  (∏ i ∈ range n.toNat, if e (ix f i) = j then 1 else lfac (e (ix f i)) j) % Q
def wsum (s : Arr) (p : ℤ) (h : Arr) (l : Arr) (o : ℤ) (g : Arr) (n : ℤ) : ℤ :=
  (∑ i ∈ range n.toNat, h (s (ix p i)) * R (g (l (ix o i)))) % Q
def ksum (s : Arr) (p : ℤ) (h : Arr) (e : Arr) (f n m : ℤ) : ℤ :=
  (∑ i ∈ range n.toNat, h (s (ix p i)) * lagr e f m (e (ix f i))) % Q
theorem lag_ax_1 (k j : ℤ) : lfac k j = fmul (R (k + 1)) (finv (fadd (R (k + 1)) (fneg (R (j + 1))))) := rfl
theorem lag_ax_2 (e : Arr) (f n j : ℤ) : 0 ≤ lagr e f n j ∧ lagr e f n j < Q := rng _
theorem lag_ax_3 (e : Arr) (f j : ℤ) : lagr e f 0 j = 1 := by simp [lagr, Q]
theorem clag (e : Arr) (f n j : ℤ) : c (lagr e f n j) =
    ∏ i ∈ range n.toNat, if e (ix f i) = j then 1 else c (lfac (e (ix f i)) j) := by
  unfold lagr; rw [cmod]; simp only [c]; push_cast
  refine prod_congr rfl fun i _ => ?_
  split <;> simp
theorem lag_ax_4 (e : Arr) (f n j : ℤ) (hn : 0 ≤ n) : lagr e f (n + 1) j =
    if e (ix f n) = j then lagr e f n j else fmul (lagr e f n j) (lfac (e (ix f n)) j) := by
  split
  · next h => exact cinj (rng _) (rng _) (by
      rw [clag, clag, succ_toNat hn, prod_range_succ, Int.toNat_of_nonneg hn, if_pos h, mul_one])
  · next h => exact cinj (rng _) (rng _) (by
      rw [cmul, clag, clag, succ_toNat hn, prod_range_succ, Int.toNat_of_nonneg hn, if_neg h])
theorem lag_ax_5 (s : Arr) (p : ℤ) (h l : Arr) (o : ℤ) (g : Arr) : wsum s p h l o g 0 = 0 := by simp [wsum]
theorem lag_ax_6 (s : Arr) (p : ℤ) (h l : Arr) (o : ℤ) (g : Arr) (n : ℤ) :
    0 ≤ wsum s p h l o g n ∧ wsum s p h l o g n < Q := rng _
theorem lag_ax_7 (s : Arr) (p : ℤ) (h l : Arr) (o : ℤ) (g : Arr) (n : ℤ) (hn : 0 ≤ n) :
    wsum s p h l o g (n + 1) = fadd (wsum s p h l o g n) (fmul (h (s (ix p n))) (R (g (l (ix o n))))) :=
  cinj (rng _) (rng _) (by
    rw [cadd, cmul]; unfold wsum
    rw [cmod, cmod, succ_toNat hn, sum_range_succ, Int.toNat_of_nonneg hn]; simp [c])
theorem ex_kwdiff : ∃ kwdiff : Arr → ℤ → Arr → Arr → ℤ → Arr → Arr → ℤ → ℤ → ℤ, ∀ s p h l o g e f n,
    wsum s p h l o g n = ksum s p h e f n n ∨
    (0 ≤ kwdiff s p h l o g e f n ∧ kwdiff s p h l o g e f n < n ∧
      ¬ R (g (l (ix o (kwdiff s p h l o g e f n)))) = lagr e f n (e (ix f (kwdiff s p h l o g e f n)))) := by
  classical
  refine ⟨fun s p h l o g e f n =>
    if w : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ R (g (l (ix o i))) = lagr e f n (e (ix f i)) then w.choose else 0, ?_⟩
  intro s p h l o g e f n
  by_cases w : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ R (g (l (ix o i))) = lagr e f n (e (ix f i))
  · right; simp only [dif_pos w]; exact w.choose_spec
  · left
    push Not at w
    unfold wsum ksum; congr 1
    refine sum_congr rfl fun i hi => ?_
    rw [w i (by omega) (by have := mem_range.mp hi; omega)]

-- interp_ax: Lagrange interpolation
theorem interp (a : Arr) (o n : ℤ) (h : Arr) (s : Arr) (p : ℤ) (hs : Arr) (e : Arr) (f m k : ℤ)
    (hnm : n ≤ m)
    (hr : ∀ i, 0 ≤ i → i < m → 0 ≤ e (ix f i) ∧ e (ix f i) < 9223372036854775807)
    (hd : ∀ i j, 0 ≤ i → i < m → 0 ≤ j → j < m → i ≠ j → e (ix f i) ≠ e (ix f j))
    (hsh : ∀ i, 0 ≤ i → i < m → hs (s (ix p i)) = fmul k (sumAt a o n h (e (ix f i) + 1))) :
    ksum s p hs e f m m = fmul k (sumAt a o n h 0) := by
  refine cinj (rng _) (rng _) ?_
  let F : Polynomial (ZMod q) := ∑ i ∈ range n.toNat, Polynomial.C (c (h (a (ix o i)))) * Polynomial.X ^ i
  let v : ℕ → ZMod q := fun i => c (e (ix f i) + 1)
  let S := range m.toNat
  have inj : Set.InjOn v ↑S := by
    intro i hi j hj hv
    by_contra hij
    have hi' := mem_range.mp (mem_coe.mp hi)
    have hj' := mem_range.mp (mem_coe.mp hj)
    have ri := hr i (by omega) (by omega)
    have rj := hr j (by omega) (by omega)
    have hq : (9223372036854775808 : ℤ) < Q := by decide +kernel
    have := cinj ⟨by omega, by omega⟩ ⟨by omega, by omega⟩ hv
    exact hd i j (by omega) (by omega) (by omega) (by omega) (by omega) (by omega)
  have evF : ∀ x : ℤ, F.eval (c x) = c (sumAt a o n h x) := by
    intro x; rw [csum]; simp [F, Polynomial.eval_finsetSum]
  have deg : F.degree < ((#S : ℕ) : WithBot ℕ) := by
    refine lt_of_lt_of_le (b := ((n.toNat : ℕ) : WithBot ℕ)) ?_ (by simp [S]; omega)
    rw [Polynomial.degree_lt_iff_coeff_zero]
    intro d hd'
    simp only [F, Polynomial.finsetSum_coeff, Polynomial.coeff_C_mul_X_pow]
    refine sum_eq_zero fun i hi => ?_
    have := mem_range.mp hi
    rw [if_neg (by omega)]
  have hF := Lagrange.eq_interpolate inj deg
  have h0 : F.eval 0 = ∑ i ∈ S, F.eval (v i) * ∏ j ∈ S.erase i, (v j * (v j - v i)⁻¹) := by
    conv_lhs => rw [hF]
    rw [Lagrange.interpolate_apply, Polynomial.eval_finsetSum]
    refine sum_congr rfl fun i hi => ?_
    rw [Polynomial.eval_mul, Polynomial.eval_C]; congr 1
    unfold Lagrange.basis
    rw [Polynomial.eval_prod]
    refine prod_congr rfl fun j hj => ?_
    unfold Lagrange.basisDivisor
    simp only [Polynomial.eval_mul, Polynomial.eval_C, Polynomial.eval_sub, Polynomial.eval_X, zero_sub]
    rw [← neg_sub (v j) (v i), inv_neg]; ring
  have hc0 : F.eval 0 = c (sumAt a o n h 0) := by rw [← evF]; simp [c]
  rw [cmul, ← hc0, h0, mul_sum]
  unfold ksum; rw [cmod]
  have : c (∑ i ∈ range m.toNat, hs (s (ix p i)) * lagr e f m (e (ix f i))) =
      ∑ i ∈ range m.toNat, c (hs (s (ix p i))) * c (lagr e f m (e (ix f i))) := by simp [c]
  rw [this]
  refine sum_congr rfl fun i hi => ?_
  have hi' := mem_range.mp hi
  rw [hsh i (by omega) (by omega), cmul, ← evF, mul_assoc]
  congr 2
  rw [clag]
  rw [← mul_prod_erase S _ hi, if_pos rfl, one_mul]
  refine prod_congr rfl fun j hj => ?_
  have hj' := mem_range.mp (mem_of_mem_erase hj)
  have hji : j ≠ i := ne_of_mem_erase hj
  rw [if_neg (hd j i (by omega) (by omega) (by omega) (by omega) (by omega))]
  unfold lfac
  rw [cmul, cR, cinv, cadd, cneg, cR, cR, sub_eq_add_neg]

/-- a witness of P, if there is one -/
noncomputable def wit (P : ℤ → Prop) : ℤ := open Classical in if h : ∃ i, P i then h.choose else 0
theorem wit_spec {P : ℤ → Prop} (h : ∃ i, P i) : P (wit P) := by
  unfold wit; rw [dif_pos h]; exact h.choose_spec

noncomputable def sdiff : Arr → ℤ → Arr → ℤ → ℤ → Arr → Arr → ℤ := ex_sdiff.choose
def sum_ax_7 := ex_sdiff.choose_spec
noncomputable def zdiff : Arr → ℤ → ℤ → Arr → ℤ := ex_zdiff.choose
def zsum_ax_1 := ex_zdiff.choose_spec
noncomputable def kwdiff : Arr → ℤ → Arr → Arr → ℤ → Arr → Arr → ℤ → ℤ → ℤ := ex_kwdiff.choose
def lag_ax_8 := ex_kwdiff.choose_spec

noncomputable def ibad (e : Arr) (f m : ℤ) : ℤ :=
  wit fun i => 0 ≤ i ∧ i < m ∧ ¬ (0 ≤ e (ix f i) ∧ e (ix f i) < 9223372036854775807)
noncomputable def idup1 (e : Arr) (f m : ℤ) : ℤ :=
  wit fun i => ∃ j, 0 ≤ i ∧ i < m ∧ 0 ≤ j ∧ j < m ∧ ¬ i = j ∧ e (ix f i) = e (ix f j)
noncomputable def idup2 (e : Arr) (f m : ℤ) : ℤ :=
  wit fun j => 0 ≤ idup1 e f m ∧ idup1 e f m < m ∧ 0 ≤ j ∧ j < m ∧ ¬ idup1 e f m = j ∧ e (ix f (idup1 e f m)) = e (ix f j)
noncomputable def inot (a : Arr) (o n : ℤ) (h : Arr) (s : Arr) (p : ℤ) (hs : Arr) (e : Arr) (f m k : ℤ) : ℤ :=
  wit fun i => 0 ≤ i ∧ i < m ∧ ¬ hs (s (ix p i)) = fmul k (sumAt a o n h (e (ix f i) + 1))
theorem interp_ax_1 (a : Arr) (o n : ℤ) (h : Arr) (s : Arr) (p : ℤ) (hs : Arr) (e : Arr) (f m k : ℤ) :
    ¬ n ≤ m ∨
    (0 ≤ ibad e f m ∧ ibad e f m < m ∧ ¬ (0 ≤ e (ix f (ibad e f m)) ∧ e (ix f (ibad e f m)) < 9223372036854775807)) ∨
    (0 ≤ idup1 e f m ∧ idup1 e f m < m ∧ 0 ≤ idup2 e f m ∧ idup2 e f m < m ∧ ¬ idup1 e f m = idup2 e f m ∧
      e (ix f (idup1 e f m)) = e (ix f (idup2 e f m))) ∨
    (0 ≤ inot a o n h s p hs e f m k ∧ inot a o n h s p hs e f m k < m ∧
      ¬ hs (s (ix p (inot a o n h s p hs e f m k))) =
        fmul k (sumAt a o n h (e (ix f (inot a o n h s p hs e f m k)) + 1))) ∨
    ksum s p hs e f m m = fmul k (sumAt a o n h 0) := by
  by_cases h0 : n ≤ m; swap; · left; exact h0
  by_cases h1 : ∃ i, 0 ≤ i ∧ i < m ∧ ¬ (0 ≤ e (ix f i) ∧ e (ix f i) < 9223372036854775807)
  · right; left; exact wit_spec h1
  by_cases h2 : ∃ i j, 0 ≤ i ∧ i < m ∧ 0 ≤ j ∧ j < m ∧ ¬ i = j ∧ e (ix f i) = e (ix f j)
  · right; right; left
    have hw : ∃ j, 0 ≤ idup1 e f m ∧ idup1 e f m < m ∧ 0 ≤ j ∧ j < m ∧ ¬ idup1 e f m = j ∧
        e (ix f (idup1 e f m)) = e (ix f j) :=
      wit_spec (P := fun i => ∃ j, 0 ≤ i ∧ i < m ∧ 0 ≤ j ∧ j < m ∧ ¬ i = j ∧ e (ix f i) = e (ix f j)) h2
    exact wit_spec hw
  by_cases h3 : ∃ i, 0 ≤ i ∧ i < m ∧ ¬ hs (s (ix p i)) = fmul k (sumAt a o n h (e (ix f i) + 1))
  · right; right; right; left; exact wit_spec h3
  · right; right; right; right
    push Not at h1 h2 h3
    exact interp a o n h s p hs e f m k h0 (fun i a b => h1 i a b)
      (fun i j a b c d g => h2 i j a b c d g) (fun i a b => h3 i a b)

/-- a sum of polynomials with few coefficients is such a polynomial: the shares of a key that several
dealers made together are values of one polynomial, the key is its value at 0 -/
theorem sum_of_polynomials (a b : Arr) (o p n : ℤ) (h g : Arr) :
    ∃ k : Arr, ∀ x, sumAt (fun i => i) 0 n k x = fadd (sumAt a o n h x) (sumAt b p n g x) := by
  refine ⟨fun i => h (a (ix o i)) + g (b (ix p i)), fun x => cinj (rng _) (rng _) ?_⟩
  rw [cadd, csum, csum, csum, ← sum_add_distrib]
  refine sum_congr rfl fun i _ => ?_
  simp only [ix, zero_add, c]; push_cast; ring

-- halve_ax: square and multiply
def fmadd (r b e : ℤ) : ℤ := fadd r (fmul b e)
theorem halve_ax_1 (r b e : ℤ) : fmadd r b e = fadd r (fmul b e) := rfl
theorem halve_ax_2 (r b : ℤ) : fmadd r b 0 = R r := by simp [fmadd, fmul, fadd, R]
theorem halve_ax_3 (b e : ℤ) : fmadd 0 b e = fmul b e := by simp [fmadd, fmul, fadd]
theorem cdiv (e : ℤ) : c e = c (e % 2) + 2 * c (e / 2) := by
  conv_lhs => rw [← Int.emod_add_mul_ediv e 2]
  simp only [c]; push_cast; ring
theorem halve_ax_4 (r b e : ℤ) (_ : 0 ≤ e) :
    fmadd r b e = if e % 2 = 1 then fmadd (fadd r b) (fadd b b) (e / 2) else fmadd r (fadd b b) (e / 2) := by
  split
  · rename_i h
    refine cinj (rng _) (rng _) ?_
    simp only [fmadd, cadd, cmul]; rw [cdiv e, h]; simp only [c]; push_cast; ring
  · rename_i h
    have h0 : e % 2 = 0 := by omega
    refine cinj (rng _) (rng _) ?_
    simp only [fmadd, cadd, cmul]; rw [cdiv e, h0]; simp only [c]; push_cast; ring

-- mul3_ax
def mul3 (x y z : ℤ) : ℤ := fmul (fmul x y) z
theorem mul3_ax_1 (x y z : ℤ) : mul3 x y z = fmul (fmul x y) z ∧ mul3 x y z = fmul z (fmul y x) :=
  ⟨rfl, cinj (rng _) (rng _) (by simp only [mul3, cmul]; ring)⟩
theorem mul3_ax_2 (x y z : ℤ) : fmul (fmul x y) z = mul3 x y z := rfl

-- bn_ax: arithmetic modulo the order of the bn256 groups (no field inverse is used)
def bOrder : ℤ := 21888242871839275222246405745257275088548364400416034343698204186575808495617
theorem bpos : 0 < bOrder := by decide +kernel
theorem brng (x : ℤ) : 0 ≤ x % bOrder ∧ x % bOrder < bOrder :=
  ⟨Int.emod_nonneg _ bpos.ne', Int.emod_lt_of_pos _ bpos⟩
def bR (x : ℤ) : ℤ := x % bOrder
def badd2 (x y : ℤ) : ℤ := (x + y) % bOrder
def bmul2 (x y : ℤ) : ℤ := (x * y) % bOrder
def bneg2 (x : ℤ) : ℤ := (-x) % bOrder
theorem bn_ax_1 : bOrder = 21888242871839275222246405745257275088548364400416034343698204186575808495617 := rfl
theorem bn_ax_2 (x : ℤ) : 0 ≤ bR x ∧ bR x < 21888242871839275222246405745257275088548364400416034343698204186575808495617 := brng _
theorem bn_ax_3 (x : ℤ) (h : 0 ≤ x ∧ x < 21888242871839275222246405745257275088548364400416034343698204186575808495617) : bR x = x :=
  Int.emod_eq_of_lt h.1 h.2
theorem bn_ax_4 (x y : ℤ) : 0 ≤ badd2 x y ∧ badd2 x y < 21888242871839275222246405745257275088548364400416034343698204186575808495617 := brng _
theorem bn_ax_5 (x y : ℤ) : 0 ≤ bmul2 x y ∧ bmul2 x y < 21888242871839275222246405745257275088548364400416034343698204186575808495617 := brng _
theorem bn_ax_6 (x : ℤ) : 0 ≤ bneg2 x ∧ bneg2 x < 21888242871839275222246405745257275088548364400416034343698204186575808495617 := brng _
theorem bn_ax_7 (x y : ℤ) : bmul2 x y = bmul2 y x := by simp [bmul2, mul_comm]
theorem bn_ax_8 (x y : ℤ) : badd2 x y = badd2 y x := by simp [badd2, add_comm]
theorem bn_ax_9 (x y : ℤ) : bmul2 (bR x) y = bmul2 x y := by simp [bmul2, bR, Int.mul_emod]
theorem bn_ax_10 (x : ℤ) : bmul2 (bneg2 1) x = bneg2 x := by
  unfold bmul2 bneg2
  rw [Int.mul_emod, Int.emod_emod_of_dvd _ (dvd_refl _), ← Int.mul_emod]; simp
theorem bn_ax_11 (x y : ℤ)
    (h : 0 ≤ x ∧ x < 21888242871839275222246405745257275088548364400416034343698204186575808495617 ∧ 0 ≤ y ∧
      y < 21888242871839275222246405745257275088548364400416034343698204186575808495617) :
    (badd2 (bneg2 x) y = 0) = (x = y) := by
  obtain ⟨h1, h2, h3, h4⟩ := h
  unfold badd2 bneg2
  rw [Int.emod_add_emod]
  apply propext
  constructor
  · intro e
    have d := Int.dvd_of_emod_eq_zero e
    obtain ⟨k, hk⟩ := d
    have : bOrder = 21888242871839275222246405745257275088548364400416034343698204186575808495617 := rfl
    have : k = 0 := by
      rw [this] at hk
      omega
    rw [this] at hk; omega
  · intro e; rw [e]; simp

-- bsum_ax
def bsum (a : Arr) (o n : ℤ) (h : Arr) : ℤ := (∑ i ∈ range n.toNat, h (a (ix o i))) % bOrder
theorem bsum_ax_1 (a : Arr) (o : ℤ) (h : Arr) : bsum a o 0 h = 0 := by simp [bsum]
theorem bsum_ax_2 (a : Arr) (o n : ℤ) (h : Arr) : 0 ≤ bsum a o n h ∧ bsum a o n h < 21888242871839275222246405745257275088548364400416034343698204186575808495617 := brng _
theorem bsum_ax_3 (a : Arr) (o n : ℤ) (h : Arr) (hn : 0 ≤ n) :
    bsum a o (n + 1) h = badd2 (bsum a o n h) (h (a (ix o n))) := by
  unfold bsum badd2
  rw [succ_toNat hn, sum_range_succ, Int.toNat_of_nonneg hn, Int.emod_add_emod]
theorem ex_bdiff : ∃ bdiff : Arr → ℤ → Arr → ℤ → ℤ → Arr → Arr → ℤ → ℤ, ∀ a o b p n h g f,
    bsum a o n h = bmul2 (bsum b p n g) f ∨
    (0 ≤ bdiff a o b p n h g f ∧ bdiff a o b p n h g f < n ∧
      ¬ h (a (ix o (bdiff a o b p n h g f))) = bmul2 (g (b (ix p (bdiff a o b p n h g f)))) f) := by
  classical
  refine ⟨fun a o b p n h g f =>
    if e : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ h (a (ix o i)) = bmul2 (g (b (ix p i))) f then e.choose else 0, ?_⟩
  intro a o b p n h g f
  by_cases e : ∃ i, 0 ≤ i ∧ i < n ∧ ¬ h (a (ix o i)) = bmul2 (g (b (ix p i))) f
  · right; simp only [dif_pos e]; exact e.choose_spec
  · left
    push Not at e
    unfold bsum bmul2
    have t : ∑ i ∈ range n.toNat, h (a (ix o i)) = ∑ i ∈ range n.toNat, (g (b (ix p i)) * f) % bOrder :=
      sum_congr rfl fun i hi => by
        rw [e i (by omega) (by have := mem_range.mp hi; omega)]; rfl
    rw [t, ← Finset.sum_int_mod, ← sum_mul]
    simp [Int.mul_emod]
noncomputable def bdiff : Arr → ℤ → Arr → ℤ → ℤ → Arr → Arr → ℤ → ℤ := ex_bdiff.choose
def bsum_ax_4 := ex_bdiff.choose_spec
