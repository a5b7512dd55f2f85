import Mathlib

/-- from the 64th on, powers of two vanish modulo 2^64 -/
theorem pow2_wrap (e : ℕ) (h : 64 ≤ e) : 2 ^ e % 2 ^ 64 = 0 ∧ (2 : ℕ) ^ 64 ≤ 2 ^ e :=
  ⟨Nat.mod_eq_zero_of_dvd (pow_dvd_pow 2 h), Nat.pow_le_pow_right (by norm_num) h⟩

/-- a power of two below 2^64 determines its exponent -/
theorem pow2_log (e f : ℕ) (h : 2 ^ e = 2 ^ f) : e = f := Nat.pow_right_injective (le_refl 2) h

theorem pow2_small (e : ℕ) : 1 ≤ 2 ^ e := Nat.one_le_two_pow
