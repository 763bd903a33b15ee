import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Logic.Relation
import Mathlib.Data.Real.Basic
import Mathlib.Tactic
open Finset BigOperators Matrix
namespace Pygsp
variable {I O : Type*} [Fintype I] [Fintype O]

set_option linter.unusedSectionVars false
/-- B (rows kept, columns eliminated), D the eliminated block, X the solution of D X = Bᵀ: B X is symmetric -/
theorem schur_symmetric (B : Matrix I O ℝ) (D : Matrix O O ℝ) (X : Matrix O I ℝ) (hD : Dᵀ = D) (hX : D * X = Bᵀ) :
    (B * X)ᵀ = B * X := by
  have hB : B = Xᵀ * D := by rw [← hD, ← Matrix.transpose_mul, hX, Matrix.transpose_transpose]
  rw [hB, Matrix.transpose_mul, Matrix.transpose_mul, Matrix.transpose_transpose, hD, Matrix.mul_assoc]

/-- if the rows of [Bᵀ D] sum to zero and D is injective, the rows of X sum to -1 -/
theorem solution_row_sum (B : Matrix I O ℝ) (D : Matrix O O ℝ) (X : Matrix O I ℝ) (hX : D * X = Bᵀ)
    (hinj : ∀ x : O → ℝ, D *ᵥ x = 0 → x = 0) (hrow : ∀ k, ∑ j, D k j + ∑ b, B b k = 0) : ∀ k, ∑ b, X k b = -1 := by
  have h : D *ᵥ (X *ᵥ (fun _ => 1) + fun _ => 1) = 0 := by
    rw [Matrix.mulVec_add, Matrix.mulVec_mulVec, hX]
    funext k
    have := hrow k
    simp only [Matrix.mulVec, dotProduct, Pi.add_apply, Matrix.transpose_apply, mul_one, Pi.zero_apply]
    linarith
  intro k
  have := congrFun (hinj _ h) k
  simp only [Matrix.mulVec, dotProduct, Pi.add_apply, mul_one, Pi.zero_apply] at this
  linarith

/-- hence the rows of the Schur complement sum to zero -/
theorem schur_row_sum (A : Matrix I I ℝ) (B : Matrix I O ℝ) (D : Matrix O O ℝ) (X : Matrix O I ℝ) (hX : D * X = Bᵀ)
    (hinj : ∀ x : O → ℝ, D *ᵥ x = 0 → x = 0) (hrow : ∀ k, ∑ j, D k j + ∑ b, B b k = 0)
    (hrow' : ∀ a, ∑ b, A a b + ∑ k, B a k = 0) : ∀ a, ∑ b, (A - B * X) a b = 0 := by
  have hs := solution_row_sum B D X hX hinj hrow
  intro a
  have : ∑ b, (B * X) a b = -∑ k, B a k := by
    simp only [Matrix.mul_apply]
    rw [Finset.sum_comm]
    rw [← Finset.sum_neg_distrib]
    refine Finset.sum_congr rfl fun k _ => ?_
    rw [← Finset.mul_sum, hs k, mul_neg_one]
  simp only [Matrix.sub_apply, Finset.sum_sub_distrib, this]
  have := hrow' a
  linarith

variable {V : Type*} [Fintype V]

/-- the block of the eliminated vertices of the Laplacian of a connected graph with non-negative weights is injective,
    as soon as one vertex r is kept: a vector x, zero on the kept vertices, with (L x)_i = 0 at every eliminated i, is zero -/
theorem eliminated_block_injective (w : V → V → ℝ) (hs : ∀ i j, w i j = w j i) (h0 : ∀ i j, 0 ≤ w i j) (out : V → Prop)
    (r : V) (hr : ¬ out r) (hc : ∀ v, Relation.ReflTransGen (fun a b => 0 < w a b) r v) (x : V → ℝ)
    (hx : ∀ i, ¬ out i → x i = 0) (hL : ∀ i, out i → ∑ j, w i j * (x i - x j) = 0) : ∀ v, x v = 0 := by
  have hz : ∑ i, ∑ j, w i j * (x i - x j) ^ 2 = 0 := by
    have h1 : ∑ i, x i * ∑ j, w i j * (x i - x j) = 0 := by
      refine Finset.sum_eq_zero fun i _ => ?_
      by_cases h : out i
      · rw [hL i h, mul_zero]
      · rw [hx i h, zero_mul]
    have h2 : ∑ i, ∑ j, w i j * (x i - x j) * x i = 0 := by
      rw [← h1]; refine Finset.sum_congr rfl fun i _ => ?_
      rw [Finset.mul_sum]; refine Finset.sum_congr rfl fun j _ => ?_; ring
    have h3 : ∑ i, ∑ j, w i j * (x i - x j) * x j = 0 := by
      rw [Finset.sum_comm]
      have : ∑ j, ∑ i, w i j * (x i - x j) * x j = -∑ i, ∑ j, w i j * (x i - x j) * x i := by
        rw [← Finset.sum_neg_distrib]; refine Finset.sum_congr rfl fun j _ => ?_
        rw [← Finset.sum_neg_distrib]; refine Finset.sum_congr rfl fun i _ => ?_
        rw [hs i j]; ring
      rw [this, h2, neg_zero]
    have : ∑ i, ∑ j, w i j * (x i - x j) ^ 2 = ∑ i, ∑ j, w i j * (x i - x j) * x i - ∑ i, ∑ j, w i j * (x i - x j) * x j := by
      rw [← Finset.sum_sub_distrib]; refine Finset.sum_congr rfl fun i _ => ?_
      rw [← Finset.sum_sub_distrib]; refine Finset.sum_congr rfl fun j _ => ?_; ring
    rw [this, h2, h3, sub_zero]
  have hterm : ∀ i j, w i j * (x i - x j) ^ 2 = 0 := by
    intro i j
    have hn : ∀ i ∈ Finset.univ, 0 ≤ ∑ j, w i j * (x i - x j) ^ 2 := fun i _ => Finset.sum_nonneg fun j _ => mul_nonneg (h0 i j) (sq_nonneg _)
    have hi := (Finset.sum_eq_zero_iff_of_nonneg hn).1 hz i (Finset.mem_univ i)
    exact (Finset.sum_eq_zero_iff_of_nonneg (fun j _ => mul_nonneg (h0 i j) (sq_nonneg _))).1 hi j (Finset.mem_univ j)
  intro v
  induction hc v with
  | refl => exact hx r hr
  | @tail b c _ hbc ih =>
    have h := hterm b c
    have : (x b - x c) ^ 2 = 0 := by
      rcases mul_eq_zero.1 h with h | h
      · exact absurd h (ne_of_gt hbc)
      · exact h
    have := pow_eq_zero_iff (two_ne_zero) |>.1 this
    linarith
end Pygsp
