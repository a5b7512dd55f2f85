import Mathlib.Tactic
import Mathlib.Data.Int.ModEq
import Mathlib.Algebra.BigOperators.Intervals
open Finset

theorem aut_inj_dvd (K : ℕ) (d i j : ℤ) (hd : d % 2 = 1) (h0 : 0 ≤ i) (h : i < j) (h1 : j < 2 ^ K) :
    ¬ ((2:ℤ) ^ K ∣ (j - i) * d) := by
  intro hdv
  have hc : IsCoprime ((2:ℤ)^K) d := by
    apply IsCoprime.pow_left
    refine ⟨-(d/2), 1, ?_⟩
    omega
  have := hc.dvd_of_dvd_mul_right hdv
  have := Int.le_of_dvd (by omega) this
  omega

/-- Different coefficients go to different places. -/
theorem aut_inj (K : ℕ) (N d i j : ℤ) (hN : N = 2 ^ K) (hd : d % 2 = 1) (h0 : 0 ≤ i) (h : i < j) (h1 : j < N) :
    (i * d) % (2 * N) ≠ (j * d) % (2 * N) ∧ (i * d) % (2 * N) ≠ (j * d) % (2 * N) + N ∧ (i * d) % (2 * N) + N ≠ (j * d) % (2 * N) := by
  have hk := aut_inj_dvd K d i j hd h0 h (hN ▸ h1)
  rw [← hN] at hk
  have e1 := Int.emod_add_mul_ediv (i * d) (2 * N)
  have e2 := Int.emod_add_mul_ediv (j * d) (2 * N)
  refine ⟨fun e => hk ⟨2 * (j * d / (2 * N)) - 2 * (i * d / (2 * N)), ?_⟩, fun e => hk ⟨2 * (j * d / (2 * N)) - 2 * (i * d / (2 * N)) - 1, ?_⟩,
    fun e => hk ⟨2 * (j * d / (2 * N)) - 2 * (i * d / (2 * N)) + 1, ?_⟩⟩ <;> linarith

theorem autpos_range (N d i : ℤ) (hN : 0 < N) : 0 ≤ (i * d) % (2 * N) ∧ (i * d) % (2 * N) < 2 * N :=
  ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩

/-- The index of the evaluation point in the transformed form is an index. -/
theorem autntt_lt (N d i : ℤ) (hN : 0 < N) (hd : d % 2 = 1) :
    2 * ((((2 * i + 1) * d) % (2 * N) - 1) / 2) + 1 = ((2 * i + 1) * d) % (2 * N) ∧
    0 ≤ (((2 * i + 1) * d) % (2 * N) - 1) / 2 ∧ (((2 * i + 1) * d) % (2 * N) - 1) / 2 < N := by
  have hodd : (((2 * i + 1) * d) % (2 * N)) % 2 = 1 := by
    rw [Int.emod_emod_of_dvd _ (dvd_mul_right 2 N), Int.mul_emod, hd]; simp [Int.add_emod]
  have h0 := Int.emod_nonneg ((2 * i + 1) * d) (show (2 * N) ≠ 0 by omega)
  have h1 := Int.emod_lt_of_pos ((2 * i + 1) * d) (show 0 < 2 * N by omega)
  omega

/-- The contract of the coefficient form says that the result is p with X^d substituted for X, modulo X^N + 1. -/
theorem aut_is_substitution {F : Type*} [CommRing F] (K N d : ℕ) (p o : ℕ → F) (x : F)
    (hN : N = 2 ^ K) (hd : d % 2 = 1) (hx : x ^ N = -1)
    (hlo : ∀ i, i < N → (i * d) % (2 * N) < N → o ((i * d) % (2 * N)) = p i)
    (hhi : ∀ i, i < N → N ≤ (i * d) % (2 * N) → o ((i * d) % (2 * N) - N) = - p i) :
    ∑ k ∈ range N, o k * x ^ k = ∑ i ∈ range N, p i * (x ^ d) ^ i := by
  have hNpos : 0 < N := by rw [hN]; positivity
  have h2N : x ^ (2 * N) = 1 := by rw [mul_comm, pow_mul, hx]; ring
  have hred : ∀ n, x ^ (n % (2 * N)) = x ^ n := by
    intro n; conv_rhs => rw [← Nat.mod_add_div n (2 * N), pow_add, pow_mul, h2N, one_pow, mul_one]
  have hterm : ∀ i ∈ range N, p i * (x ^ d) ^ i = o ((i * d) % (2 * N) % N) * x ^ ((i * d) % (2 * N) % N) := by
    intro i hi
    have hi := mem_range.mp hi
    have hlt : (i * d) % (2 * N) < 2 * N := Nat.mod_lt _ (by omega)
    have hp : (x ^ d) ^ i = x ^ ((i * d) % (2 * N)) := by rw [hred, ← pow_mul, mul_comm]
    rw [hp]
    by_cases hc : (i * d) % (2 * N) < N
    · rw [Nat.mod_eq_of_lt hc, hlo i hi hc]
    · have hc : N ≤ (i * d) % (2 * N) := by omega
      rw [Nat.mod_eq_sub_mod hc, Nat.mod_eq_of_lt (show (i * d) % (2 * N) - N < N by omega), hhi i hi hc]
      conv_lhs => rw [show (i * d) % (2 * N) = ((i * d) % (2 * N) - N) + N by omega, pow_add, hx]
      ring
  rw [sum_congr rfl hterm]
  have hinj : Set.InjOn (fun i => (i * d) % (2 * N) % N) (range N : Set ℕ) := by
    intro i hi j hj hij
    have hi : i < N := mem_range.mp hi
    have hj : j < N := mem_range.mp hj
    have hmod : ∀ n : ℕ, n % (2 * N) % N = n % N := fun n => Nat.mod_mod_of_dvd _ (dvd_mul_left N 2)
    simp only [hmod] at hij
    have key : ∀ a b : ℕ, a < b → b < N → a * d % N = b * d % N → False := by
      intro a b hab hb he
      apply aut_inj_dvd K d a b (by omega) (by omega) (by omega) (by rw [hN] at hb; exact_mod_cast hb)
      have := (Nat.modEq_iff_dvd.mp (show a * d ≡ b * d [MOD N] from he))
      rw [hN] at this; push_cast at this
      rw [sub_mul]; exact this
    rcases Nat.lt_trichotomy i j with h | h | h
    · exact (key i j h hj hij).elim
    · exact h
    · exact (key j i h hi hij.symm).elim
  have hmaps : Set.MapsTo (fun i => (i * d) % (2 * N) % N) (range N : Set ℕ) (range N : Set ℕ) := by
    intro i _; exact mem_range.mpr (Nat.mod_lt _ hNpos)
  symm
  exact sum_nbij (fun i => (i * d) % (2 * N) % N) hmaps hinj
    (finset_surj hinj hmaps) (fun _ _ => rfl)
where
  finset_surj {N : ℕ} {f : ℕ → ℕ} (hinj : Set.InjOn f (range N : Set ℕ)) (hmaps : Set.MapsTo f (range N : Set ℕ) (range N : Set ℕ)) :
      Set.SurjOn f (range N : Set ℕ) (range N : Set ℕ) := by
    have := Finset.surjOn_of_injOn_of_card_le f (s := range N) (t := range N) hmaps hinj le_rfl
    exact this

/-- In transformed form: moving the value at the point x^(2i+1) from the point with index autntt i is substituting X^d. -/
theorem autntt_point {F : Type*} [CommRing F] (N d i : ℕ) (x : F) (hN : 0 < N) (hd : d % 2 = 1) (hx : x ^ (2 * N) = 1) :
    x ^ (2 * ((((2 * i + 1) * d) % (2 * N) - 1) / 2) + 1) = (x ^ (2 * i + 1)) ^ d := by
  have hodd : (((2 * i + 1) * d) % (2 * N)) % 2 = 1 := by
    rw [Nat.mod_mod_of_dvd _ (dvd_mul_right 2 N), Nat.mul_mod, hd]; simp [Nat.add_mod]
  have e : 2 * ((((2 * i + 1) * d) % (2 * N) - 1) / 2) + 1 = ((2 * i + 1) * d) % (2 * N) := by omega
  rw [e, ← pow_mul]
  conv_rhs => rw [← Nat.mod_add_div ((2 * i + 1) * d) (2 * N), pow_add, pow_mul x (2 * N), hx, one_pow, mul_one]

/-- The integer nearest to x*q/Q, halves upwards excluded: exists and is unique. -/
theorem nearest_unique (t Q : ℤ) (hQ : 0 < Q) : ∃! v : ℤ, 2 * (t - Q * v) ≤ Q ∧ -Q < 2 * (t - Q * v) := by
  have e := Int.emod_add_mul_ediv t Q
  have h0 := Int.emod_nonneg t (show Q ≠ 0 by omega)
  have h1 := Int.emod_lt_of_pos t hQ
  have hex : ∃ v : ℤ, 2 * (t - Q * v) ≤ Q ∧ -Q < 2 * (t - Q * v) := by
    by_cases h : 2 * (t % Q) ≤ Q
    · exact ⟨t / Q, by constructor <;> linarith⟩
    · exact ⟨t / Q + 1, by constructor <;> linarith⟩
  obtain ⟨v, hv⟩ := hex
  refine ⟨v, hv, ?_⟩
  intro w hw
  have a1 : Q * (v - w) < Q := by linarith [hv.1, hv.2, hw.1, hw.2]
  have a2 : -Q < Q * (v - w) := by linarith [hv.1, hv.2, hw.1, hw.2]
  have b1 : v - w < 1 := by nlinarith
  have b2 : -1 < v - w := by nlinarith
  omega

/-- It is within half of x*q/Q. -/
theorem nearest_distance (t Q v : ℤ) (h : 2 * (t - Q * v) ≤ Q ∧ -Q < 2 * (t - Q * v)) : |2 * (t - Q * v)| ≤ Q := by
  rw [abs_le]; constructor <;> linarith [h.1, h.2]
