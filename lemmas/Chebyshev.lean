/- Chebyshev filtering with a polynomial kernel of degree at most the order is exact.
   c k: the coefficients computed by compute_cheby_coeff; P k: the vectors computed by cheby_op. -/
import Mathlib
open Polynomial Finset
open Polynomial.Chebyshev (T T_real_cos T_add_two natDegree_T leadingCoeff_T)

noncomputable def node (N t : ℕ) : ℝ := Real.pi * ((t + 1 / 2) / N)

theorem cos_sum (N k : ℕ) (hk : 0 < k) (hN : k < 2 * N) : ∑ t ∈ range N, Real.cos (k * node N t) = 0 := by
  have hN0 : (0 : ℝ) < N := by exact_mod_cast (by omega : 0 < N)
  set a : ℝ := Real.pi * k / N with ha
  have hs : Real.sin (a / 2) ≠ 0 := by
    apply ne_of_gt; apply Real.sin_pos_of_pos_of_lt_pi
    · have : (0 : ℝ) < k := by exact_mod_cast hk
      positivity
    · have : (k : ℝ) < 2 * N := by exact_mod_cast hN
      rw [ha, div_div, div_lt_iff₀ (by positivity)]
      nlinarith [Real.pi_pos]
  have key : ∀ t : ℕ, 2 * Real.sin (a / 2) * Real.cos (k * node N t) = Real.sin (a * (t + 1 : ℕ)) - Real.sin (a * t) := by
    intro t
    have e1 : (k : ℝ) * node N t = a * t + a / 2 := by simp only [node, ha]; field_simp
    have e2 : a * ((t + 1 : ℕ) : ℝ) = (a * t + a / 2) + a / 2 := by push_cast; ring
    have e3 : a * (t : ℝ) = (a * t + a / 2) - a / 2 := by ring
    rw [e1, e2, Real.sin_add]
    conv_rhs => rw [e3, Real.sin_sub]
    have e4 : a * (t : ℝ) + a / 2 - a / 2 + a / 2 = a * t + a / 2 := by ring
    rw [e4]; ring
  have tel : 2 * Real.sin (a / 2) * ∑ t ∈ range N, Real.cos (k * node N t) = 0 := by
    rw [mul_sum, sum_congr rfl (fun t _ => key t), sum_range_sub (fun t : ℕ => Real.sin (a * t))]
    have : a * (N : ℝ) = k * Real.pi := by rw [ha]; field_simp
    rw [this, Real.sin_nat_mul_pi]; simp
  rcases mul_eq_zero.mp tel with h | h
  · exact absurd (by linarith [h] : Real.sin (a / 2) = 0) hs
  · exact h

/-- discrete orthogonality at the Chebyshev nodes -/
theorem cos_orth (N k l : ℕ) (hk : k < N) (hl : l < N) :
    ∑ t ∈ range N, Real.cos (k * node N t) * Real.cos (l * node N t) = if k = l then (if k = 0 then (N : ℝ) else N / 2) else 0 := by
  have prod : ∀ t, Real.cos (k * node N t) * Real.cos (l * node N t) =
      (Real.cos ((k + l : ℕ) * node N t) + Real.cos (((max k l - min k l : ℕ) : ℝ) * node N t)) / 2 := by
    intro t
    have h2 : Real.cos (((max k l - min k l : ℕ) : ℝ) * node N t) = Real.cos (k * node N t - l * node N t) := by
      rcases le_total k l with h | h
      · rw [max_eq_right h, min_eq_left h, Nat.cast_sub h, ← Real.cos_neg]; congr 1; ring
      · rw [max_eq_left h, min_eq_right h, Nat.cast_sub h]; congr 1; ring
    rw [h2]; push_cast; rw [add_mul, Real.cos_add, Real.cos_sub]; ring
  simp_rw [prod]
  rw [← sum_div, sum_add_distrib]
  by_cases h : k = l
  · subst h
    simp only [max_self, min_self, Nat.sub_self, Nat.cast_zero, zero_mul, Real.cos_zero, sum_const, card_range, nsmul_eq_mul, mul_one, if_true]
    by_cases h0 : k = 0
    · subst h0; simp
    · rw [cos_sum N (k + k) (by omega) (by omega)]; simp [h0]
  · rw [cos_sum N (k + l) (by omega) (by omega), cos_sum N (max k l - min k l) (by omega) (by omega)]; simp [h]

/-- the coefficients of compute_cheby_coeff, for a function given at the nodes -/
noncomputable def coef (N : ℕ) (f : ℝ → ℝ) (k : ℕ) : ℝ :=
  2 / N * ∑ t ∈ range N, f (Real.cos (node N t)) * Real.cos (k * node N t)

noncomputable def series (N m : ℕ) (f : ℝ → ℝ) : ℝ[X] :=
  C (coef N f 0 / 2) + ∑ k ∈ range m, C (coef N f (k + 1)) * T ℝ ((k + 1 : ℕ) : ℤ)

theorem series_T (N m l : ℕ) (hm : m < N) (hl : l ≤ m) : series N m (fun x => (T ℝ (l : ℤ)).eval x) = T ℝ (l : ℤ) := by
  have hN0 : (N : ℝ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  have hc : ∀ k, k < N → coef N (fun x => (T ℝ (l : ℤ)).eval x) k = if k = l then (if k = 0 then 2 else 1) else 0 := by
    intro k hk
    have : ∀ t, (T ℝ (l : ℤ)).eval (Real.cos (node N t)) * Real.cos (k * node N t) = Real.cos (l * node N t) * Real.cos (k * node N t) := by
      intro t; rw [T_real_cos]; push_cast; rfl
    unfold coef; simp_rw [this]
    rw [cos_orth N l k (by omega) hk]
    by_cases h : l = k
    · subst h
      by_cases h0 : l = 0
      · simp [h0]; field_simp
      · simp [h0]; omega
    · simp [h, Ne.symm h]
  unfold series
  rw [hc 0 (by omega), sum_congr rfl (fun k hk => by rw [hc (k + 1) (by have := mem_range.mp hk; omega)])]
  rcases Nat.eq_zero_or_pos l with h | h
  · subst h; simp
  · obtain ⟨j, rfl⟩ : ∃ j, l = j + 1 := ⟨l - 1, by omega⟩
    rw [sum_eq_single j]
    · simp
    · intro b _ hb; simp [hb]
    · intro hj; exact absurd (mem_range.mpr (by omega)) hj

theorem coef_add (N k : ℕ) (f g : ℝ → ℝ) : coef N (fun x => f x + g x) k = coef N f k + coef N g k := by
  unfold coef; simp_rw [add_mul]; rw [sum_add_distrib]; ring
theorem coef_smul (N k : ℕ) (c : ℝ) (f : ℝ → ℝ) : coef N (fun x => c * f x) k = c * coef N f k := by
  unfold coef; simp_rw [mul_assoc]; rw [← mul_sum]; ring
theorem series_add (N m : ℕ) (f g : ℝ → ℝ) : series N m (fun x => f x + g x) = series N m f + series N m g := by
  unfold series; simp_rw [coef_add, C_add, add_mul]; rw [sum_add_distrib, add_div, C_add]; ring
theorem series_smul (N m : ℕ) (c : ℝ) (f : ℝ → ℝ) : series N m (fun x => c * f x) = C c * series N m f := by
  unfold series; simp_rw [coef_smul, C_mul, mul_assoc]; rw [mul_add, mul_sum, mul_div_assoc, C_mul]

/-- a polynomial of degree at most the order is its own Chebyshev series -/
theorem series_exact (N m : ℕ) (hm : m < N) (p : ℝ[X]) (hp : p.natDegree ≤ m) : series N m (fun x => p.eval x) = p := by
  have main : ∀ d, d ≤ m → ∀ q : ℝ[X], q.natDegree ≤ d → series N m (fun x => q.eval x) = q := by
    intro d
    induction d with
    | zero =>
      intro _ q hq
      have hqc := Polynomial.eq_C_of_natDegree_eq_zero (Nat.le_zero.mp hq)
      have h1 := series_smul N m (q.coeff 0) (fun x => (T ℝ ((0 : ℕ) : ℤ)).eval x)
      rw [series_T N m 0 hm (by omega)] at h1
      have h2 : (fun x => q.eval x) = fun x => q.coeff 0 * (T ℝ ((0 : ℕ) : ℤ)).eval x := by
        funext x; rw [hqc]; simp
      rw [h2, h1]; conv_rhs => rw [hqc]
      simp
    | succ d ih =>
      intro hd q hq
      set c : ℝ := q.coeff (d + 1) / (T ℝ ((d + 1 : ℕ) : ℤ)).leadingCoeff with hc
      have hT0 : (T ℝ ((d + 1 : ℕ) : ℤ)).leadingCoeff ≠ 0 := by
        rw [leadingCoeff_T]; positivity
      have hTd : (T ℝ ((d + 1 : ℕ) : ℤ)).natDegree = d + 1 := by rw [natDegree_T]; rfl
      set r : ℝ[X] := q - C c * T ℝ ((d + 1 : ℕ) : ℤ) with hr
      have hrd : r.natDegree ≤ d := by
        rw [Polynomial.natDegree_le_iff_coeff_eq_zero]
        intro n hn
        rcases Nat.lt_or_ge (d + 1) n with h | h
        · rw [hr, coeff_sub, coeff_C_mul, coeff_eq_zero_of_natDegree_lt (by omega), coeff_eq_zero_of_natDegree_lt (by omega)]; simp
        · have : n = d + 1 := by omega
          subst this
          have hl : (T ℝ ((d + 1 : ℕ) : ℤ)).coeff (d + 1) = (T ℝ ((d + 1 : ℕ) : ℤ)).leadingCoeff := by
            rw [leadingCoeff, hTd]
          rw [hr, coeff_sub, coeff_C_mul, hl, hc, div_mul_cancel₀ _ hT0, sub_self]
      have hq' : (fun x => q.eval x) = fun x => r.eval x + c * (T ℝ ((d + 1 : ℕ) : ℤ)).eval x := by
        funext x; rw [hr]; simp
      rw [hq', series_add N m (fun x => r.eval x) (fun x => c * (T ℝ ((d + 1 : ℕ) : ℤ)).eval x), series_smul N m c, ih (by omega) r hrd, series_T N m (d + 1) hm hd, hr]; ring
  exact main m le_rfl p hp

open Matrix
variable {n : ℕ}

/-- the three-term recurrence computes T_k(A) x -/
theorem recurrence (A : Matrix (Fin n) (Fin n) ℝ) (P : ℕ → Fin n → ℝ) (h1 : P 1 = A *ᵥ P 0)
    (h2 : ∀ k, P (k + 2) = (2 : ℝ) • (A *ᵥ P (k + 1)) - P k) (k : ℕ) : P k = (aeval A (T ℝ (k : ℤ))) *ᵥ P 0 := by
  induction k using Nat.twoStepInduction with
  | zero => simp
  | one => simp [h1]
  | more k ih0 ih1 =>
    have e : T ℝ ((k + 2 : ℕ) : ℤ) = 2 * X * T ℝ ((k + 1 : ℕ) : ℤ) - T ℝ (k : ℤ) := by
      push_cast; exact T_add_two ℝ k
    have two : (2 : ℝ[X]) = C 2 := (map_ofNat C 2).symm
    rw [h2, ih1, ih0, e, two, map_sub, map_mul, map_mul, aeval_X, aeval_C, Matrix.sub_mulVec, Algebra.algebraMap_eq_smul_one, smul_mul_assoc, one_mul, smul_mul_assoc, Matrix.smul_mulVec, Matrix.mulVec_mulVec]

/-- polynomials of a diagonalised matrix -/
theorem calculus (U : Matrix (Fin n) (Fin n) ℝ) (e : Fin n → ℝ) (h : U * Uᵀ = 1) (h' : Uᵀ * U = 1) (p : ℝ[X]) :
    aeval (U * diagonal e * Uᵀ) p = U * diagonal (fun i => p.eval (e i)) * Uᵀ := by
  induction p using Polynomial.induction_on' with
  | add p q hp hq =>
    rw [map_add, hp, hq, ← add_mul, ← mul_add, diagonal_add]; simp
  | monomial k c =>
    have pw : (U * diagonal e * Uᵀ) ^ k = U * diagonal (fun i => e i ^ k) * Uᵀ := by
      induction k with
      | zero => simp [h]
      | succ k ih =>
        rw [pow_succ, ih]
        have : U * diagonal (fun i => e i ^ k) * Uᵀ * (U * diagonal e * Uᵀ) = U * diagonal (fun i => e i ^ k) * (Uᵀ * U) * diagonal e * Uᵀ := by
          simp only [Matrix.mul_assoc]
        rw [this, h', mul_one, Matrix.mul_assoc U, diagonal_mul_diagonal]; simp_rw [pow_succ]
    rw [aeval_monomial, pw, Algebra.algebraMap_eq_smul_one, smul_mul_assoc, one_mul, ← smul_mul_assoc, ← mul_smul_comm]
    congr 2
    ext i j; by_cases hij : i = j
    · subst hij; simp
    · simp [hij]

/-- what the contracts of compute_cheby_coeff (c), cheby_op (P and the sum) and the Fourier basis (U, e) give together -/
theorem chebyshev_exact (m N : ℕ) (hm : 1 ≤ m) (hN : m < N) (lm : ℝ) (hl : 0 < lm) (q : ℝ[X]) (hq : q.natDegree ≤ m)
    (U L : Matrix (Fin n) (Fin n) ℝ) (e : Fin n → ℝ) (h : U * Uᵀ = 1) (h' : Uᵀ * U = 1) (hL : L = U * diagonal e * Uᵀ)
    (c : ℕ → ℝ) (hc : ∀ k, c k = 2 * (1 / N * ∑ t ∈ range N, q.eval (lm / 2 * Real.cos (Real.pi * ((t + 1 / 2) / N)) + lm / 2) * Real.cos (Real.pi * k * ((t + 1 / 2) / N))))
    (P : ℕ → Fin n → ℝ) (h1 : P 1 = (lm / 2)⁻¹ • (L *ᵥ P 0 - (lm / 2) • P 0))
    (h2 : ∀ k, P (k + 2) = (2 : ℝ) • ((lm / 2)⁻¹ • (L *ᵥ P (k + 1) - (lm / 2) • P (k + 1))) - P k) :
    (c 0 / 2) • P 0 + c 1 • P 1 + ∑ k ∈ range (m - 1), c (k + 2) • P (k + 2) = (U * diagonal (fun i => q.eval (e i)) * Uᵀ) *ᵥ P 0 := by
  set a := lm / 2 with ha
  have ha0 : a ≠ 0 := by rw [ha]; positivity
  set A : Matrix (Fin n) (Fin n) ℝ := a⁻¹ • (L - a • 1) with hA
  have Av : ∀ v, A *ᵥ v = a⁻¹ • (L *ᵥ v - a • v) := by
    intro v; rw [hA, Matrix.smul_mulVec, Matrix.sub_mulVec, Matrix.smul_mulVec, Matrix.one_mulVec]
  set p : ℝ[X] := q.comp (C a * X + C a) with hp
  have hpd : p.natDegree ≤ m := by
    rw [hp]; refine le_trans natDegree_comp_le ?_
    have : (C a * X + C a : ℝ[X]).natDegree ≤ 1 := natDegree_linear_le
    nlinarith
  have hcoef : ∀ k, c k = coef N (fun x => p.eval x) k := by
    intro k; rw [hc]; unfold coef node
    rw [← mul_assoc, mul_one_div]; congr 1; apply sum_congr rfl; intro t _
    rw [hp]; simp only [eval_comp, eval_add, eval_mul, eval_C, eval_X]; congr 2; ring_nf
  have hP := recurrence A P (by rw [Av, h1]) (fun k => by rw [Av, h2])
  have hser := series_exact N m hN p hpd
  obtain ⟨m', rfl⟩ : ∃ m', m = m' + 1 := ⟨m - 1, by omega⟩
  have lhs : (c 0 / 2) • P 0 + c 1 • P 1 + ∑ k ∈ range m', c (k + 2) • P (k + 2) = (aeval A (series N (m' + 1) (fun x => p.eval x))) *ᵥ P 0 := by
    unfold series
    rw [sum_range_succ', map_add, map_add, map_sum, aeval_C, Algebra.algebraMap_eq_smul_one, Matrix.add_mulVec, Matrix.add_mulVec, Matrix.smul_mulVec, Matrix.one_mulVec, ← hcoef, Matrix.sum_mulVec]
    have term : ∀ k : ℕ, (aeval A (C (coef N (fun x => p.eval x) k) * T ℝ (k : ℤ))) *ᵥ P 0 = c k • P k := by
      intro k; rw [map_mul, aeval_C, Algebra.algebraMap_eq_smul_one, smul_mul_assoc, one_mul, Matrix.smul_mulVec, ← hP k, hcoef]
    rw [sum_congr rfl (fun k _ => term (k + 1 + 1)), term (0 + 1)]
    simp only [Nat.zero_add]; abel
  simp only [Nat.add_sub_cancel]
  rw [lhs, hser]
  have hAd : A = U * diagonal (fun i => (e i - a) / a) * Uᵀ := by
    have one : (a • (1 : Matrix (Fin n) (Fin n) ℝ)) = U * diagonal (fun _ => a) * Uᵀ := by
      have : diagonal (fun _ : Fin n => a) = a • (1 : Matrix (Fin n) (Fin n) ℝ) := by ext i j; by_cases hij : i = j <;> simp [hij]
      rw [this]; simp [h]
    rw [hA, hL, one, ← sub_mul, ← mul_sub, diagonal_sub, ← smul_mul_assoc, ← mul_smul_comm]
    congr 2; ext i j; by_cases hij : i = j
    · subst hij; simp; field_simp
    · simp [hij]
  rw [hAd, calculus U _ h h' p]
  congr 3; funext i; rw [hp]; simp only [eval_comp, eval_add, eval_mul, eval_C, eval_X]
  congr 1; field_simp; ring
