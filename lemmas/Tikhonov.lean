import Mathlib.Logic.Relation
import Mathlib.Data.Real.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Tactic
open Finset BigOperators
namespace Pygsp
variable {V : Type*} [Fintype V]

/-- (mask + tau L) is injective for a connected graph with non-negative weights, a non-empty mask and tau > 0: the
    system solved by the regression has exactly one solution -/
theorem tikhonov_injective (w : V → V → ℝ) (hs : ∀ i j, w i j = w j i) (h0 : ∀ i j, 0 ≤ w i j) (m : V → ℝ)
    (hm : ∀ i, m i = 0 ∨ m i = 1) (tau : ℝ) (ht : 0 < tau) (r : V) (hr : m r = 1)
    (hc : ∀ v, Relation.ReflTransGen (fun a b => 0 < w a b) r v) (x : V → ℝ)
    (hx : ∀ i, m i * x i + tau * ∑ j, w i j * (x i - x j) = 0) : ∀ v, x v = 0 := by
  have hz : ∑ i, (2 * (m i * x i ^ 2) + tau * ∑ j, w i j * (x i - x j) ^ 2) = 0 := by
    have h2 : ∑ i, (m i * x i ^ 2 + tau * ∑ j, w i j * (x i - x j) * x i) = 0 := by
      refine Finset.sum_eq_zero fun i _ => ?_
      have := hx i
      have h : (m i * x i + tau * ∑ j, w i j * (x i - x j)) * x i = 0 := by rw [this, zero_mul]
      rw [add_mul, mul_assoc tau, Finset.sum_mul] at h
      linarith [h, (by ring : m i * x i * x i = m i * x i ^ 2)]
    have h3 : ∑ i, ∑ j, w i j * (x i - x j) * x j = -∑ i, ∑ j, w i j * (x i - x j) * x i := by
      rw [Finset.sum_comm, ← Finset.sum_neg_distrib]; refine Finset.sum_congr rfl fun j _ => ?_
      rw [← Finset.sum_neg_distrib]; refine Finset.sum_congr rfl fun i _ => ?_
      rw [hs i j]; ring
    have h4 : ∑ i, ∑ j, w i j * (x i - x j) ^ 2 = 2 * ∑ i, ∑ j, w i j * (x i - x j) * x i := by
      have : ∑ i, ∑ j, w i j * (x i - x j) ^ 2 = ∑ i, ∑ j, w i j * (x i - x j) * x i - ∑ i, ∑ j, w i j * (x i - x j) * x j := by
        rw [← Finset.sum_sub_distrib]; refine Finset.sum_congr rfl fun i _ => ?_
        rw [← Finset.sum_sub_distrib]; refine Finset.sum_congr rfl fun j _ => ?_; ring
      rw [this, h3]; ring
    rw [Finset.sum_add_distrib, ← Finset.mul_sum, ← Finset.mul_sum, h4]
    rw [Finset.sum_add_distrib, ← Finset.mul_sum] at h2
    linarith
  have hn : ∀ i ∈ Finset.univ, 0 ≤ 2 * (m i * x i ^ 2) + tau * ∑ j, w i j * (x i - x j) ^ 2 := by
    intro i _
    have : 0 ≤ m i := by rcases hm i with h | h <;> rw [h] <;> norm_num
    have h1 : 0 ≤ ∑ j, w i j * (x i - x j) ^ 2 := Finset.sum_nonneg fun j _ => mul_nonneg (h0 i j) (sq_nonneg _)
    positivity
  have hi := fun i => (Finset.sum_eq_zero_iff_of_nonneg hn).1 hz i (Finset.mem_univ i)
  have hsum : ∀ i, ∑ j, w i j * (x i - x j) ^ 2 = 0 ∧ m i * x i ^ 2 = 0 := by
    intro i
    have hmi : 0 ≤ m i := by rcases hm i with h | h <;> rw [h] <;> norm_num
    have h1 : 0 ≤ ∑ j, w i j * (x i - x j) ^ 2 := Finset.sum_nonneg fun j _ => mul_nonneg (h0 i j) (sq_nonneg _)
    have h2 : 0 ≤ m i * x i ^ 2 := mul_nonneg hmi (sq_nonneg _)
    have h3 := hi i
    have h4 : 0 ≤ tau * ∑ j, w i j * (x i - x j) ^ 2 := mul_nonneg ht.le h1
    have h5 : tau * ∑ j, w i j * (x i - x j) ^ 2 = 0 := by linarith
    refine ⟨?_, by linarith⟩
    rcases mul_eq_zero.1 h5 with h | h
    · exact absurd h ht.ne'
    · exact h
  have hterm : ∀ i j, w i j * (x i - x j) ^ 2 = 0 := fun i j =>
    (Finset.sum_eq_zero_iff_of_nonneg (fun j _ => mul_nonneg (h0 i j) (sq_nonneg _))).1 (hsum i).1 j (Finset.mem_univ j)
  have hxr : x r = 0 := by
    have := (hsum r).2
    rw [hr, one_mul] at this
    exact pow_eq_zero_iff (two_ne_zero) |>.1 this
  intro v
  induction hc v with
  | refl => exact hxr
  | @tail b c _ hbc ih =>
    have h := hterm b c
    have : (x b - x c) ^ 2 = 0 := by
      rcases mul_eq_zero.1 h with h | h
      · exact absurd h (ne_of_gt hbc)
      · exact h
    have := pow_eq_zero_iff (two_ne_zero) |>.1 this
    linarith
end Pygsp
