import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Algebra.Order.BigOperators.Group.Finset
open Finset BigOperators
namespace Pygsp
variable {n : ℕ} (w : Fin n → Fin n → ℝ) (u : Fin n → ℝ) (lam : ℝ)

/-- weighted degree -/
def deg (w : Fin n → Fin n → ℝ) (i : Fin n) : ℝ := ∑ j, w i j

/-- `u` is an eigenvector of the combinatorial Laplacian for the eigenvalue `lam` -/
def IsEig (w : Fin n → Fin n → ℝ) (u : Fin n → ℝ) (lam : ℝ) : Prop :=
  u ≠ 0 ∧ ∀ i, deg w i * u i - ∑ j, w i j * u j = lam * u i

theorem exists_ne {u : Fin n → ℝ} (h : u ≠ 0) : ∃ i, u i ≠ 0 := by
  by_contra hc; push Not at hc; exact h (funext hc)

theorem lap_diff (i : Fin n) : deg w i * u i - ∑ j, w i j * u j = ∑ j, w i j * (u i - u j) := by
  simp only [deg, mul_sub, Finset.sum_sub_distrib, Finset.sum_mul]

theorem deg_nonneg (hw : ∀ i j, 0 ≤ w i j) (i : Fin n) : 0 ≤ deg w i := Finset.sum_nonneg fun j _ => hw i j

/-- lam ≤ 2 max d -/
theorem bound_degree (hw : ∀ i j, 0 ≤ w i j) (h : IsEig w u lam) : ∃ i, lam ≤ 2 * deg w i := by
  obtain ⟨hu, he⟩ := h
  obtain ⟨k, hk⟩ := exists_ne hu
  obtain ⟨i, -, hi⟩ := Finset.exists_max_image Finset.univ (fun i => |u i|) ⟨k, Finset.mem_univ k⟩
  refine ⟨i, ?_⟩
  have hpos : 0 < |u i| := lt_of_lt_of_le (abs_pos.mpr hk) (hi k (Finset.mem_univ k))
  have h1 : lam * u i * u i ≤ 2 * deg w i * (|u i| * |u i|) := by
    have : lam * u i = deg w i * u i - ∑ j, w i j * u j := (he i).symm
    have hs : |∑ j, w i j * u j| ≤ deg w i * |u i| := by
      calc |∑ j, w i j * u j| ≤ ∑ j, |w i j * u j| := Finset.abs_sum_le_sum_abs _ _
        _ ≤ ∑ j, w i j * |u i| := Finset.sum_le_sum fun j _ => by
            rw [abs_mul, abs_of_nonneg (hw i j)]; exact mul_le_mul_of_nonneg_left (hi j (Finset.mem_univ j)) (hw i j)
        _ = deg w i * |u i| := by rw [deg, Finset.sum_mul]
    have hs2 : -(∑ j, w i j * u j) * u i ≤ deg w i * |u i| * |u i| := by
      calc -(∑ j, w i j * u j) * u i ≤ |-(∑ j, w i j * u j) * u i| := le_abs_self _
        _ = |∑ j, w i j * u j| * |u i| := by rw [abs_mul, abs_neg]
        _ ≤ deg w i * |u i| * |u i| := mul_le_mul_of_nonneg_right hs (abs_nonneg _)
    have hq : u i * u i = |u i| * |u i| := (abs_mul_abs_self (u i)).symm
    calc lam * u i * u i = deg w i * (u i * u i) + -(∑ j, w i j * u j) * u i := by rw [this]; ring
      _ ≤ deg w i * (|u i| * |u i|) + deg w i * |u i| * |u i| := by rw [hq]; exact add_le_add le_rfl hs2
      _ = 2 * deg w i * (|u i| * |u i|) := by ring
  have h2 : lam * (|u i| * |u i|) ≤ 2 * deg w i * (|u i| * |u i|) := by
    rw [abs_mul_abs_self]; rw [abs_mul_abs_self] at h1; linarith [h1]
  exact le_of_mul_le_mul_right h2 (mul_pos hpos hpos)

/-- lam ≤ max over the edges of d_i + d_j, for a positive eigenvalue -/
theorem bound_edges (hw : ∀ i j, 0 ≤ w i j) (h : IsEig w u lam) (hl : 0 < lam) :
    ∃ i j, w i j ≠ 0 ∧ lam ≤ deg w i + deg w j := by
  obtain ⟨hu, he⟩ := h
  have he' : ∀ i, ∑ j, w i j * (u i - u j) = lam * u i := fun i => by rw [← lap_diff]; exact he i
  obtain ⟨k, hk⟩ := exists_ne hu
  classical
  let S := (Finset.univ : Finset (Fin n × Fin n)).filter (fun p => w p.1 p.2 ≠ 0)
  have hS : ∃ p ∈ S, u p.1 - u p.2 ≠ 0 := by
    by_contra hc; push Not at hc
    have : ∑ j, w k j * (u k - u j) = 0 := Finset.sum_eq_zero fun j _ => by
      by_cases hz : w k j = 0
      · rw [hz, zero_mul]
      · rw [hc (k, j) (by simp [S, hz]), mul_zero]
    rw [he' k] at this
    rcases mul_eq_zero.mp this with h0 | h0
    · exact hl.ne' h0
    · exact hk h0
  obtain ⟨p0, hp0, hz0⟩ := hS
  obtain ⟨⟨i, j⟩, hp, hm⟩ := Finset.exists_max_image S (fun p => |u p.1 - u p.2|) ⟨p0, hp0⟩
  have hij : w i j ≠ 0 := by simpa [S] using hp
  refine ⟨i, j, hij, ?_⟩
  have hpos : 0 < |u i - u j| := lt_of_lt_of_le (abs_pos.mpr hz0) (hm p0 hp0)
  have hrow : ∀ a, |∑ k, w a k * (u a - u k)| ≤ deg w a * |u i - u j| := fun a => by
    calc |∑ k, w a k * (u a - u k)| ≤ ∑ k, |w a k * (u a - u k)| := Finset.abs_sum_le_sum_abs _ _
      _ ≤ ∑ k, w a k * |u i - u j| := Finset.sum_le_sum fun k _ => by
          rw [abs_mul, abs_of_nonneg (hw a k)]
          by_cases hz : w a k = 0
          · rw [hz, zero_mul, zero_mul]
          · exact mul_le_mul_of_nonneg_left (hm (a, k) (by simp [S, hz])) (hw a k)
      _ = deg w a * |u i - u j| := by rw [deg, Finset.sum_mul]
  have : lam * |u i - u j| ≤ (deg w i + deg w j) * |u i - u j| := by
    calc lam * |u i - u j| = |lam * u i - lam * u j| := by rw [← mul_sub, abs_mul, abs_of_pos hl]
      _ ≤ |lam * u i| + |lam * u j| := abs_sub _ _
      _ ≤ deg w i * |u i - u j| + deg w j * |u i - u j| := by
          rw [← he' i, ← he' j]; exact add_le_add (hrow i) (hrow j)
      _ = (deg w i + deg w j) * |u i - u j| := by ring
  exact le_of_mul_le_mul_right this hpos

/-- lam ≤ max d_i + (W d)_i / d_i (division by zero is zero) -/
theorem bound_merris (hw : ∀ i j, 0 ≤ w i j) (_hs : ∀ i j, w i j = w j i) (h : IsEig w u lam) (hl : 0 < lam) :
    ∃ i, deg w i ≠ 0 ∧ lam ≤ deg w i + (∑ j, w i j * deg w j) / deg w i := by
  obtain ⟨hu, he⟩ := h
  classical
  have hz : ∀ i, deg w i = 0 → u i = 0 := fun i hi => by
    have h0 : ∀ j, w i j = 0 := fun j => (Finset.sum_eq_zero_iff_of_nonneg (fun j _ => hw i j)).mp hi j (Finset.mem_univ j)
    have := he i
    simp [hi, h0] at this
    rcases this with h0 | h0
    · exact absurd h0 hl.ne'
    · exact h0
  obtain ⟨k, hk⟩ := exists_ne hu
  obtain ⟨i, hi, hm⟩ := Finset.exists_max_image (Finset.univ.filter fun i => deg w i ≠ 0) (fun i => |u i / deg w i|) ⟨k, by simp; exact fun h => hk (hz k h)⟩
  have hdi : deg w i ≠ 0 := by simpa using hi
  have hd : 0 < deg w i := lt_of_le_of_ne (deg_nonneg w hw i) hdi.symm
  refine ⟨i, hdi, ?_⟩
  set y := |u i / deg w i| with hy
  have hdk : deg w k ≠ 0 := fun h => hk (hz k h)
  have hpos : 0 < y := lt_of_lt_of_le (abs_pos.mpr (div_ne_zero hk hdk)) (hm k (by simp [hdk]))
  have hu' : ∀ j, |u j| ≤ deg w j * y := fun j => by
    by_cases hj : deg w j = 0
    · rw [hz j hj, hj]; simp
    · have := hm j (by simp [hj])
      rw [abs_div, abs_of_nonneg (deg_nonneg w hw j), div_le_iff₀ (lt_of_le_of_ne (deg_nonneg w hw j) (Ne.symm hj))] at this
      linarith
  have hui : |u i| = deg w i * y := by
    rw [hy, abs_div, abs_of_pos hd]; field_simp
  have key : lam * (deg w i * y) ≤ (deg w i * deg w i + ∑ j, w i j * deg w j) * y := by
    calc lam * (deg w i * y) = |lam * u i| := by rw [abs_mul, abs_of_pos hl, hui]
      _ = |deg w i * u i - ∑ j, w i j * u j| := by rw [he i]
      _ ≤ |deg w i * u i| + |∑ j, w i j * u j| := abs_sub _ _
      _ ≤ deg w i * (deg w i * y) + ∑ j, w i j * (deg w j * y) := by
          refine add_le_add (by rw [abs_mul, abs_of_pos hd, hui]) ?_
          refine (Finset.abs_sum_le_sum_abs _ _).trans (Finset.sum_le_sum fun j _ => ?_)
          rw [abs_mul, abs_of_nonneg (hw i j)]; exact mul_le_mul_of_nonneg_left (hu' j) (hw i j)
      _ = (deg w i * deg w i + ∑ j, w i j * deg w j) * y := by
          rw [add_mul, Finset.sum_mul]; congr 1
          · ring
          · exact Finset.sum_congr rfl fun j _ => by ring
  have key2 : lam * deg w i ≤ deg w i * deg w i + ∑ j, w i j * deg w j := by
    refine le_of_mul_le_mul_right ?_ hpos; calc lam * deg w i * y = lam * (deg w i * y) := by ring
      _ ≤ _ := key
  have : lam ≤ (deg w i * deg w i + ∑ j, w i j * deg w j) / deg w i := (le_div_iff₀ hd).mpr key2
  rwa [add_div, mul_div_assoc, div_self hdi, mul_one] at this

theorem quad (hs : ∀ i j, w i j = w j i) : ∑ i, u i * (deg w i * u i - ∑ j, w i j * u j) = (∑ i, ∑ j, w i j * (u i - u j) ^ 2) / 2 := by
  have h1 : ∑ i, u i * (deg w i * u i - ∑ j, w i j * u j) = ∑ i, ∑ j, w i j * (u i * (u i - u j)) := by
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [lap_diff, Finset.mul_sum]; exact Finset.sum_congr rfl fun j _ => by ring
  have h2 : ∑ i, ∑ j, w i j * (u i * (u i - u j)) = ∑ i, ∑ j, w i j * (u j * (u j - u i)) := by
    rw [Finset.sum_comm]
    exact Finset.sum_congr rfl fun i _ => Finset.sum_congr rfl fun j _ => by rw [hs j i]
  have h3 : ∑ i, ∑ j, w i j * (u i - u j) ^ 2 = ∑ i, ∑ j, w i j * (u i * (u i - u j)) + ∑ i, ∑ j, w i j * (u j * (u j - u i)) := by
    rw [← Finset.sum_add_distrib]; refine Finset.sum_congr rfl fun i _ => ?_
    rw [← Finset.sum_add_distrib]; exact Finset.sum_congr rfl fun j _ => by ring
  rw [h1, h3, ← h2]; ring

/-- lam ≤ n max w -/
theorem bound_size (m : ℝ) (hw : ∀ i j, 0 ≤ w i j) (hs : ∀ i j, w i j = w j i) (hm : ∀ i j, w i j ≤ m) (h : IsEig w u lam) : lam ≤ n * m := by
  obtain ⟨hu, he⟩ := h
  obtain ⟨k, hk⟩ := exists_ne hu
  have hm0 : 0 ≤ m := (hw k k).trans (hm k k)
  have hq : 0 < ∑ i, u i ^ 2 := Finset.sum_pos' (fun i _ => sq_nonneg _) ⟨k, Finset.mem_univ k, by positivity⟩
  have h1 : lam * ∑ i, u i ^ 2 = (∑ i, ∑ j, w i j * (u i - u j) ^ 2) / 2 := by
    rw [← quad w u hs, Finset.mul_sum]; exact Finset.sum_congr rfl fun i _ => by rw [he i]; ring
  have h2 : ∑ i, ∑ j, w i j * (u i - u j) ^ 2 ≤ ∑ i : Fin n, ∑ j : Fin n, m * (u i - u j) ^ 2 :=
    Finset.sum_le_sum fun i _ => Finset.sum_le_sum fun j _ => mul_le_mul_of_nonneg_right (hm i j) (sq_nonneg _)
  have h3 : ∑ i : Fin n, ∑ j : Fin n, m * (u i - u j) ^ 2 = 2 * m * (n * ∑ i, u i ^ 2 - (∑ i, u i) ^ 2) := by
    have : ∀ i j : Fin n, m * (u i - u j) ^ 2 = m * u i ^ 2 + m * u j ^ 2 - 2 * m * (u i * u j) := fun i j => by ring
    simp only [this, Finset.sum_sub_distrib, Finset.sum_add_distrib, Finset.sum_const, Finset.card_univ, Fintype.card_fin, nsmul_eq_mul, ← Finset.mul_sum, ← Finset.sum_mul]
    ring
  have h4 : lam * ∑ i, u i ^ 2 ≤ n * m * ∑ i, u i ^ 2 := by
    rw [h1]; have := h2.trans_eq h3
    nlinarith [mul_nonneg hm0 (sq_nonneg (∑ i, u i))]
  exact le_of_mul_le_mul_right h4 hq

/-- the eigenvalues of the normalized Laplacian do not exceed 2; `s i` is the inverse square root of the degree, and
    zero where the degree is zero -/
theorem bound_normalized (s : Fin n → ℝ) (hw : ∀ i j, 0 ≤ w i j) (hs : ∀ i j, w i j = w j i) (hd : ∀ i, deg w i ≠ 0 → s i ^ 2 * deg w i = 1) (_h0 : ∀ i, deg w i = 0 → s i = 0)
    (hu : u ≠ 0) (he : ∀ i, (if deg w i = 0 then 0 else u i) - ∑ j, s i * w i j * s j * u j = lam * u i) : lam ≤ 2 := by
  obtain ⟨k, hk⟩ := exists_ne hu
  have hq : 0 < ∑ i, u i ^ 2 := Finset.sum_pos' (fun i _ => sq_nonneg _) ⟨k, Finset.mem_univ k, by positivity⟩
  let v := fun i => s i * u i
  have hv : ∀ i, deg w i * v i ^ 2 = if deg w i = 0 then 0 else u i ^ 2 := fun i => by
    split_ifs with h
    · rw [h, zero_mul]
    · calc deg w i * (s i * u i) ^ 2 = s i ^ 2 * deg w i * u i ^ 2 := by ring
        _ = u i ^ 2 := by rw [hd i h, one_mul]
  have hnn : 0 ≤ ∑ i, ∑ j, w i j * (v i + v j) ^ 2 := Finset.sum_nonneg fun i _ => Finset.sum_nonneg fun j _ => mul_nonneg (hw i j) (sq_nonneg _)
  have hex : ∑ i, ∑ j, w i j * (v i + v j) ^ 2 = 2 * ∑ i, deg w i * v i ^ 2 + 2 * ∑ i, ∑ j, w i j * (v i * v j) := by
    have : ∀ i j : Fin n, w i j * (v i + v j) ^ 2 = w i j * v i ^ 2 + w i j * v j ^ 2 + 2 * (w i j * (v i * v j)) := fun i j => by ring
    simp only [this, Finset.sum_add_distrib, ← Finset.mul_sum]
    have e1 : ∑ i, ∑ j, w i j * v i ^ 2 = ∑ i, deg w i * v i ^ 2 := Finset.sum_congr rfl fun i _ => by rw [deg, Finset.sum_mul]
    have e2 : ∑ i, ∑ j, w i j * v j ^ 2 = ∑ i, deg w i * v i ^ 2 := by
      rw [Finset.sum_comm]; exact Finset.sum_congr rfl fun i _ => by rw [deg, Finset.sum_mul]; exact Finset.sum_congr rfl fun j _ => by rw [hs j i]
    rw [e1, e2]; ring
  have h1 : lam * ∑ i, u i ^ 2 = ∑ i, deg w i * v i ^ 2 - ∑ i, ∑ j, w i j * (v i * v j) := by
    rw [Finset.mul_sum, ← Finset.sum_sub_distrib]; refine Finset.sum_congr rfl fun i _ => ?_
    rw [hv i]
    have : lam * u i ^ 2 = (lam * u i) * u i := by ring
    rw [this, ← he i, sub_mul, Finset.sum_mul]; congr 1
    · split_ifs <;> ring
    · exact Finset.sum_congr rfl fun j _ => by simp only [v]; ring
  have h2 : ∑ i, deg w i * v i ^ 2 ≤ ∑ i, u i ^ 2 := Finset.sum_le_sum fun i _ => by
    rw [hv i]; split_ifs
    · exact sq_nonneg _
    · exact le_rfl
  have h4 : lam * ∑ i, u i ^ 2 ≤ 2 * ∑ i, u i ^ 2 := by rw [h1]; linarith
  exact le_of_mul_le_mul_right h4 hq

/-- as `bound_edges`, for every eigenvalue of a graph with an edge -/
theorem bound_edges_all (hw : ∀ i j, 0 ≤ w i j) (h : IsEig w u lam) (hE : ∃ i j, w i j ≠ 0) :
    ∃ i j, w i j ≠ 0 ∧ lam ≤ deg w i + deg w j := by
  rcases le_or_gt lam 0 with hl | hl
  · obtain ⟨i, j, hij⟩ := hE
    exact ⟨i, j, hij, hl.trans (add_nonneg (deg_nonneg w hw i) (deg_nonneg w hw j))⟩
  · exact bound_edges w u lam hw h hl

/-- as `bound_merris`, for every eigenvalue -/
theorem bound_merris_all (hw : ∀ i j, 0 ≤ w i j) (hs : ∀ i j, w i j = w j i) (h : IsEig w u lam) :
    ∃ i, lam ≤ deg w i + (∑ j, w i j * deg w j) / deg w i := by
  rcases le_or_gt lam 0 with hl | hl
  · obtain ⟨i, -⟩ := exists_ne h.1
    exact ⟨i, hl.trans (add_nonneg (deg_nonneg w hw i) (div_nonneg (Finset.sum_nonneg fun j _ => mul_nonneg (hw i j) (deg_nonneg w hw j)) (deg_nonneg w hw i)))⟩
  · obtain ⟨i, -, hi⟩ := bound_merris w u lam hw hs h hl
    exact ⟨i, hi⟩

/-- a graph in which every vertex is reached from s along the edges and along the reversed edges is strongly connected -/
theorem connected_iff {V : Type*} (r : V → V → Prop) (s : V) :
    (∀ a b, Relation.ReflTransGen r a b) ↔ (∀ a, Relation.ReflTransGen r s a) ∧ (∀ a, Relation.ReflTransGen (fun x y => r y x) s a) := by
  constructor
  · intro h; refine ⟨fun a => h s a, fun a => ?_⟩
    have := h a s
    exact (Relation.reflTransGen_swap (r := r)).mpr this
  · rintro ⟨h1, h2⟩ a b
    have := (Relation.reflTransGen_swap (r := r)).mp (h2 a)
    exact this.trans (h1 b)
end Pygsp
