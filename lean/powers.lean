import Mathlib.Tactic

theorem pow_zero_succ {F : Type*} [CommRing F] (x : F) (n : ℕ) : x ^ 0 = 1 ∧ x ^ (n + 1) = x ^ n * x := ⟨pow_zero x, pow_succ x n⟩

theorem pow_half {F : Type*} [CommRing F] (x : F) (n : ℕ) :
    x ^ n = (x * x) ^ (n / 2) * (if n % 2 = 1 then x else 1) := by
  rcases Nat.even_or_odd' n with ⟨k, rfl | rfl⟩
  · simp [← pow_two, ← pow_mul]
  · have h1 : (2 * k + 1) / 2 = k := by omega
    have h2 : (2 * k + 1) % 2 = 1 := by omega
    rw [h1, h2, if_pos rfl, ← pow_two, ← pow_mul, pow_succ]
