import Mathlib.Logic.Relation
import Mathlib.Data.Set.Basic
import Mathlib.Data.Set.Lattice
import Mathlib.Tactic
namespace Pygsp
variable {V : Type*} (A : V → V → Prop)

/-- sweeping: at step k the set C k is added to the marked vertices; it was not marked and is closed under the edges;
    nothing is marked at the start, everything at the end: the C k partition the vertices and no edge joins two of them -/
theorem components_partition (K : ℕ) (mark C : ℕ → Set V) (h0 : mark 0 = ∅) (hK : mark K = Set.univ)
    (hstep : ∀ k < K, mark (k + 1) = mark k ∪ C k) (hnew : ∀ k < K, ∀ u ∈ C k, u ∉ mark k)
    (hclosed : ∀ k < K, ∀ u ∈ C k, ∀ v, A u v → v ∈ C k) :
    (∀ v, ∃! k, k < K ∧ v ∈ C k) ∧ (∀ k < K, ∀ l < K, k ≠ l → ∀ u ∈ C k, ∀ v ∈ C l, ¬ A u v) := by
  have hmem : ∀ m ≤ K, ∀ v, v ∈ mark m ↔ ∃ k < m, v ∈ C k := by
    intro m
    induction m with
    | zero => intro _ v; simp [h0]
    | succ m ih =>
      intro hm v
      rw [hstep m (by omega)]
      constructor
      · rintro (h | h)
        · obtain ⟨k, hk, hv⟩ := (ih (by omega) v).1 h; exact ⟨k, by omega, hv⟩
        · exact ⟨m, by omega, h⟩
      · rintro ⟨k, hk, hv⟩
        rcases Nat.lt_succ_iff_lt_or_eq.1 hk with h | h
        · exact Or.inl ((ih (by omega) v).2 ⟨k, h, hv⟩)
        · subst h; exact Or.inr hv
  have huniq : ∀ v k l, k < K → l < K → v ∈ C k → v ∈ C l → k = l := by
    intro v k l hk hl hvk hvl
    rcases lt_trichotomy k l with h | h | h
    · exact absurd ((hmem l (by omega) v).2 ⟨k, h, hvk⟩) (hnew l hl v hvl)
    · exact h
    · exact absurd ((hmem k (by omega) v).2 ⟨l, h, hvl⟩) (hnew k hk v hvk)
  refine ⟨fun v => ?_, fun k hk l hl hne u hu v hv he => ?_⟩
  · obtain ⟨k, hk, hv⟩ := (hmem K le_rfl v).1 (by rw [hK]; trivial)
    exact ⟨k, ⟨hk, hv⟩, fun l ⟨hl, hvl⟩ => huniq v l k hl hk hvl hv⟩
  · exact hne (huniq v k l hk hl (hclosed k hk u hu v he) hv)

/-- the vertices reachable from one vertex along symmetric edges are connected to each other within themselves -/
theorem component_connected (hsym : ∀ u v, A u v → A v u) (s : V) (C : Set V)
    (hC : ∀ v, v ∈ C ↔ Relation.ReflTransGen A s v) :
    ∀ u ∈ C, ∀ v ∈ C, Relation.ReflTransGen (fun a b => A a b ∧ a ∈ C ∧ b ∈ C) u v := by
  have key : ∀ v, Relation.ReflTransGen A s v → Relation.ReflTransGen (fun a b => A a b ∧ a ∈ C ∧ b ∈ C) s v := by
    intro v h
    induction h with
    | refl => exact Relation.ReflTransGen.refl
    | tail hab hbc ih => exact ih.tail ⟨hbc, (hC _).2 hab, (hC _).2 (hab.tail hbc)⟩
  have hs : ∀ a b, (A a b ∧ a ∈ C ∧ b ∈ C) → (A b a ∧ b ∈ C ∧ a ∈ C) := fun a b ⟨h, ha, hb⟩ => ⟨hsym _ _ h, hb, ha⟩
  intro u hu v hv
  have h1 := key u ((hC u).1 hu)
  have h2 := key v ((hC v).1 hv)
  have h1' : Relation.ReflTransGen (fun a b => A a b ∧ a ∈ C ∧ b ∈ C) u s := by
    induction h1 with
    | refl => exact Relation.ReflTransGen.refl
    | tail hab hbc ih => exact Relation.ReflTransGen.head (hs _ _ hbc) (ih hbc.2.1)
  exact h1'.trans h2
end Pygsp
