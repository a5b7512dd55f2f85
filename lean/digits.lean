import Mathlib
/-! The digit bases of the range proofs: weight j is half of floor(x / 2^j), rounded up. -/
open Finset

theorem halved_top (x n : ℕ) (hn : 1 ≤ n) (h1 : 2 ^ (n - 1) ≤ x) (h2 : x < 2 ^ n) : x / 2 ^ (n - 1) = 1 ∧ x / 2 ^ n = 0 := by
  refine ⟨?_, Nat.div_eq_of_lt h2⟩
  have e : 2 ^ n = 2 * 2 ^ (n - 1) := by rw [← pow_succ']; congr 1; omega
  rw [e] at h2
  exact Nat.div_eq_of_lt_le (by omega) (by omega)

theorem halved_step (x j : ℕ) : 2 * (x / 2 ^ (j + 1)) ≤ x / 2 ^ j ∧ x / 2 ^ j ≤ 2 * (x / 2 ^ (j + 1)) + 1 := by
  rw [pow_succ, ← Nat.div_div_eq_div_mul]; omega

def wt (x j : ℕ) : ℤ := (x / 2 ^ j : ℕ) - (x / 2 ^ (j + 1) : ℕ)

theorem wt_nonneg (x j : ℕ) : 0 ≤ wt x j := by have := halved_step x j; unfold wt; omega

theorem wt_sum (x k m : ℕ) : ∑ j ∈ range m, wt x (k + j) = (x / 2 ^ k : ℕ) - (x / 2 ^ (k + m) : ℕ) := by
  induction m with
  | zero => simp
  | succ m ih => rw [sum_range_succ, ih]; unfold wt; rw [← add_assoc]; ring

theorem reach_from (x : ℕ) : ∀ m k, x / 2 ^ (k + m) = 0 → ∀ v : ℤ, |v| ≤ (x / 2 ^ k : ℕ) →
    ∃ d : ℕ → ℤ, (∀ j, d j = -1 ∨ d j = 0 ∨ d j = 1) ∧ ∑ j ∈ range m, d j * wt x (k + j) = v := by
  intro m
  induction m with
  | zero => intro k h v hv; rw [Nat.add_zero] at h; rw [h] at hv; refine ⟨fun _ => 0, by simp, ?_⟩; have : v = 0 := by simpa using hv
            simp [this]
  | succ m ih =>
    intro k h v hv
    have hs := halved_step x k
    have hv' := abs_le.mp hv
    have hh : x / 2 ^ (k + 1 + m) = 0 := by rw [show k + 1 + m = k + (m + 1) by ring]; exact h
    have key : ∃ e : ℤ, (e = -1 ∨ e = 0 ∨ e = 1) ∧ |v - e * wt x k| ≤ (x / 2 ^ (k + 1) : ℕ) := by
      unfold wt
      rcases le_or_gt ((x / 2 ^ k : ℕ) - (x / 2 ^ (k + 1) : ℕ) : ℤ) v with h1 | h1
      · exact ⟨1, by simp, by rw [abs_le]; constructor <;> omega⟩
      · rcases le_or_gt v (-((x / 2 ^ k : ℕ) - (x / 2 ^ (k + 1) : ℕ)) : ℤ) with h2 | h2
        · exact ⟨-1, by simp, by rw [abs_le]; constructor <;> omega⟩
        · exact ⟨0, by simp, by rw [abs_le]; constructor <;> omega⟩
    obtain ⟨e, he, hb⟩ := key
    obtain ⟨d, hd, hsum⟩ := ih (k + 1) hh _ hb
    refine ⟨fun j => if j = 0 then e else d (j - 1), ?_, ?_⟩
    · intro j; by_cases hj : j = 0
      · simp [hj, he]
      · simp only [hj, if_false]; exact hd _
    · rw [sum_range_succ']
      simp only [Nat.add_eq_zero_iff, one_ne_zero, and_false, if_false, if_true, Nat.add_sub_cancel, Nat.add_zero]
      have : ∑ j ∈ range m, d j * wt x (k + (j + 1)) = ∑ j ∈ range m, d j * wt x (k + 1 + j) := by
        apply sum_congr rfl; intro j _; rw [show k + (j + 1) = k + 1 + j by ring]
      rw [this, hsum]; ring

/-- The sums of the weights with digits -1, 0 and 1 are exactly the integers from -x to x. -/
theorem digits_reach (x n : ℕ) (h : x < 2 ^ n) (v : ℤ) :
    (∃ d : ℕ → ℤ, (∀ j, d j = -1 ∨ d j = 0 ∨ d j = 1) ∧ ∑ j ∈ range n, d j * wt x j = v) ↔ |v| ≤ x := by
  constructor
  · rintro ⟨d, hd, rfl⟩
    refine (abs_sum_le_sum_abs _ _).trans ?_
    have h1 : ∀ j ∈ range n, |d j * wt x j| ≤ wt x j := by
      intro j _
      have := wt_nonneg x j
      rcases hd j with e | e | e <;> rw [e] <;> simp [abs_of_nonneg this, this]
    refine (sum_le_sum h1).trans ?_
    have := wt_sum x 0 n
    simp only [Nat.zero_add, pow_zero, Nat.div_one] at this
    rw [this, Nat.div_eq_of_lt h]; simp
  · intro hv
    have := reach_from x n 0 (by rw [Nat.zero_add]; exact Nat.div_eq_of_lt h) v (by simpa using hv)
    simpa using this

/-- Digits that account for the successive remainders sum up to the value when nothing remains. -/
theorem digits_sum (n : ℕ) (g d b : ℕ → ℤ) (h : ∀ j, j < n → g j - g (j + 1) = d j * b j) (h0 : g n = 0) : ∑ j ∈ range n, d j * b j = g 0 := by
  have : ∀ m, m ≤ n → ∑ j ∈ range m, d j * b j = g 0 - g m := by
    intro m
    induction m with
    | zero => intro _; simp
    | succ m ih => intro hm; rw [sum_range_succ, ih (by omega), ← h m (by omega)]; ring
  rw [this n le_rfl, h0, sub_zero]
