import Mathlib.Tactic
import Mathlib.Algebra.BigOperators.Intervals
open Finset

/-- The recurrence of the contract of Evaluate (H n = 0, H k = H (k+1) * x + a k) gives the sum of coefficients times powers. -/
theorem horner_is_evaluation {F : Type*} [CommRing F] (n : ℕ) (a H : ℕ → F) (x : F)
    (h0 : H n = 0) (hs : ∀ k, k < n → H k = H (k + 1) * x + a k) :
    H 0 = ∑ k ∈ range n, a k * x ^ k := by
  have key : ∀ m, m ≤ n → H 0 = (∑ k ∈ range m, a k * x ^ k) + H m * x ^ m := by
    intro m hm
    induction m with
    | zero => simp
    | succ m ih =>
      rw [ih (by omega), hs m (by omega), sum_range_succ]; ring
  rw [key n le_rfl, h0]; ring

/-- The coefficient equations of the contract of QuoRemByVanishing say that p = u * (X^N - 1) + r as polynomials. -/
theorem quorem_is_division {F : Type*} [CommRing F] (n N : ℕ) (p u r : ℕ → F) (x : F) (hN : 1 ≤ N)
    (hlo : ∀ k, k < n → k < N → p k = r k - u k)
    (hhi : ∀ k, k < n → N ≤ k → p k = r k + u (k - N) - u k)
    (hu : ∀ k, n ≤ k + N → u k = 0) :
    ∑ k ∈ range n, p k * x ^ k = (∑ k ∈ range n, u k * x ^ k) * (x ^ N - 1) + ∑ k ∈ range n, r k * x ^ k := by
  have hp : ∀ k ∈ range n, p k * x ^ k = r k * x ^ k - u k * x ^ k + (if N ≤ k then u (k - N) else 0) * x ^ k := by
    intro k hk
    have hk := mem_range.mp hk
    by_cases h : N ≤ k
    · rw [hhi k hk h]; simp [h]; ring
    · rw [hlo k hk (by omega)]; simp [h]; ring
  have hshift : ∑ k ∈ range n, (if N ≤ k then u (k - N) else 0) * x ^ k = (∑ k ∈ range n, u k * x ^ k) * x ^ N := by
    by_cases hn : N ≤ n
    · obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le hn
      rw [sum_range_add, sum_mul]
      have h1 : ∑ k ∈ range N, (if N ≤ k then u (k - N) else 0) * x ^ k = 0 := by
        apply sum_eq_zero; intro k hk; have := mem_range.mp hk; simp [show ¬ N ≤ k by omega]
      have h2 : ∑ k ∈ range (N + d), u k * x ^ k * x ^ N = ∑ k ∈ range d, u k * x ^ k * x ^ N := by
        symm; apply sum_subset
        · intro k hk; have := mem_range.mp hk; exact mem_range.mpr (by omega)
        · intro k _ hk
          have : d ≤ k := by by_contra h; exact hk (mem_range.mpr (by omega))
          rw [hu k (by omega)]; ring
      rw [h1, h2, zero_add]
      apply sum_congr rfl; intro k _
      simp [pow_add]; ring
    · have h1 : ∑ k ∈ range n, (if N ≤ k then u (k - N) else 0) * x ^ k = 0 := by
        apply sum_eq_zero; intro k hk; have := mem_range.mp hk; simp [show ¬ N ≤ k by omega]
      have h2 : ∑ k ∈ range n, u k * x ^ k = 0 := by
        apply sum_eq_zero; intro k _; rw [hu k (by omega)]; ring
      rw [h1, h2]; ring
  rw [sum_congr rfl hp, sum_add_distrib, sum_sub_distrib, hshift]; ring
