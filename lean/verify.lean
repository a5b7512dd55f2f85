/- Lemmas behind the contracts of the verifier of openings (vcg/cons_verify.py). -/
import Mathlib

/-- A balanced value is determined by its residues: those that agree modulo every factor of Q and lie in (-Q/2, Q/2] are equal. -/
theorem rns_unique {ι : Type*} (s : Finset ι) (q : ι → ℤ) (v w : ℤ) (hc : (s : Set ι).Pairwise fun i j => IsCoprime (q i) (q j))
    (h : ∀ i ∈ s, v % q i = w % q i) (hv : -(∏ i ∈ s, q i) < 2 * v ∧ 2 * v ≤ ∏ i ∈ s, q i) (hw : -(∏ i ∈ s, q i) < 2 * w ∧ 2 * w ≤ ∏ i ∈ s, q i) : v = w := by
  have hd : (∏ i ∈ s, q i) ∣ v - w := Finset.prod_dvd_of_coprime hc fun i hi => Int.ModEq.dvd (h i hi).symm
  obtain ⟨k, hk⟩ := hd
  set Q := ∏ i ∈ s, q i
  have h1 : -(2 * Q) < 2 * (v - w) := by linarith [hv.1, hw.2]
  have h2 : 2 * (v - w) < 2 * Q := by linarith [hv.2, hw.1]
  have hQ : 0 < Q := by linarith
  have : k = 0 := by
    rcases lt_trichotomy k 0 with hk0 | hk0 | hk0
    · nlinarith [Int.lt_iff_add_one_le.mp hk0]
    · exact hk0
    · nlinarith [Int.lt_iff_add_one_le.mp hk0]
  rw [this] at hk; linarith

/-- Sums of equal terms are equal: the norm of a vector depends on its elements' values only. -/
theorem sum_congr {M : Type*} [AddCommMonoid M] (f g : ℕ → M) (n : ℕ) (h : ∀ k < n, f k = g k) : ∑ k ∈ Finset.range n, f k = ∑ k ∈ Finset.range n, g k :=
  Finset.sum_congr rfl fun k hk => h k (Finset.mem_range.mp hk)

/-- Positions below S·n belong to digits below n. -/
theorem position_below (m S n : ℤ) (hS : 0 < S) (h : m < S * n) : m / S < n := by
  rw [Int.ediv_lt_iff_lt_mul hS]; linarith [mul_comm S n]
