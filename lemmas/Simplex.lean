/- Used by contracts/c16.py: the conditions proved of the projection characterise the closest point of the simplex. -/
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Data.Fintype.BigOperators
import Mathlib.Tactic
open Finset
namespace Pygsp
/-- x: on the simplex, y - x constant on the support of x and nowhere larger; then x is a closest point of the simplex to y,
and the only one. -/
theorem simplex_closest {n : ℕ} (x y z : Fin n → ℝ) (hx : ∀ j, 0 ≤ x j) (hs : ∑ j, x j = 1)
    (h1 : ∀ j l, 0 < x j → 0 < x l → y j - x j = y l - x l) (h2 : ∀ j l, 0 < x j → x l = 0 → y l ≤ y j - x j)
    (hz : ∀ j, 0 ≤ z j) (hzs : ∑ j, z j = 1) :
    ∑ j, (x j - y j) ^ 2 + ∑ j, (z j - x j) ^ 2 ≤ ∑ j, (z j - y j) ^ 2 := by
  have hpos : ∃ j, 0 < x j := by
    by_contra hc
    push Not at hc
    have : ∑ j, x j = 0 := Finset.sum_eq_zero (fun j _ => le_antisymm (hc j) (hx j))
    linarith
  obtain ⟨k, hk⟩ := hpos
  have key : ∀ l, -(y k - x k) * (z l - x l) ≤ (z l - x l) * (x l - y l) := by
    intro l
    rcases (hx l).lt_or_eq with h | h
    · have e := h1 k l hk h
      have : (z l - x l) * (x l - y l) = -(y k - x k) * (z l - x l) := by rw [e]; ring
      exact this.ge
    · have := h2 k l hk h.symm
      have := hz l
      rw [← h]
      nlinarith
  have hsum : 0 ≤ ∑ l, (z l - x l) * (x l - y l) := by
    have h := Finset.sum_le_sum (fun l (_ : l ∈ (univ : Finset (Fin n))) => key l)
    rw [← Finset.mul_sum, Finset.sum_sub_distrib, hs, hzs] at h
    simpa using h
  have e : ∑ j, (z j - y j) ^ 2 = ∑ j, (x j - y j) ^ 2 + ∑ j, (z j - x j) ^ 2 + 2 * ∑ l, (z l - x l) * (x l - y l) := by
    rw [Finset.mul_sum, ← Finset.sum_add_distrib, ← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl (fun j _ => by ring)
  linarith
/-- sums over a row and over its sorted entries agree -/
theorem sum_sorted {n : ℕ} (f : Fin n → ℝ) (p : Equiv.Perm (Fin n)) : ∑ r, f (p r) = ∑ j, f j := Equiv.sum_comp p f
/-- entries kept are those from b on: what the row sums to, with the threshold t -/
theorem kept_sum {n : ℕ} (s : Fin n → ℝ) (t : ℝ) (b : ℕ) (h : ∀ r, max 0 (s r - t) = if b ≤ r.val then s r - t else 0) :
    ∑ r, max 0 (s r - t) = ∑ r ∈ univ.filter (fun r : Fin n => b ≤ r.val), (s r - t) := by
  rw [Finset.sum_filter]
  exact Finset.sum_congr rfl (fun r _ => h r)
end Pygsp
