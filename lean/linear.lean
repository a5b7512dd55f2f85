import Mathlib
/-! Facts behind the linear checkers: modular inverses, inverse automorphisms, and that each declared transpose is the transpose. -/
open Finset

-- ---- modular inverse (bez x m u a: m ∣ u*x - a)
theorem gcd_step (a b : ℤ) : Int.gcd a b = Int.gcd b (a % b) := by
  rw [Int.gcd_comm b (a % b), Int.gcd_emod]

theorem gcd_zero (a : ℤ) (h : 0 ≤ a) : (Int.gcd a 0 : ℤ) = a := by simp [abs_of_nonneg h]

theorem gcd_one (x : ℤ) : Int.gcd x 1 = 1 := by simp

theorem gcd_pow_two (x : ℤ) (K : ℕ) (hK : 1 ≤ K) : (Int.gcd (x % 2 ^ K) (2 ^ K) = 1) ↔ x % 2 = 1 := by
  rw [show Int.gcd (x % 2 ^ K) (2 ^ K) = Int.gcd (2 ^ K) x by rw [gcd_step (x % 2 ^ K) (2 ^ K), gcd_step (2 ^ K) x, ← gcd_step, ← gcd_step, Int.gcd_comm, ← gcd_step, Int.gcd_comm x]]
  rw [Int.gcd_comm, ← Int.isCoprime_iff_gcd_eq_one, IsCoprime.pow_right_iff (by omega), Int.isCoprime_iff_gcd_eq_one]
  have : Int.gcd x 2 = Int.gcd 2 (x % 2) := by rw [Int.gcd_comm, ← gcd_step, Int.gcd_comm, gcd_step]
  rw [this]
  rcases Int.emod_two_eq_zero_or_one x with h | h <;> rw [h] <;> simp

theorem bez_one (x m : ℤ) : m ∣ 1 * x - x := by simp
theorem bez_zero (x m : ℤ) : m ∣ 0 * x - m := by simp

theorem bez_step (x m u v a b w c r q : ℤ) (K : ℕ) (hm : m = 2 ^ K) (hlt : m < 2 ^ 64) (hu : m ∣ u * x - a) (hv : m ∣ v * x - b)
    (hq : a = b * q + r) (hw : (w - (u - q * v)) % 2 ^ 64 = 0) (hc : c = r) : m ∣ w * x - c := by
  have hK : K < 64 := by
    by_contra h
    have : (2:ℤ) ^ 64 ≤ 2 ^ K := pow_le_pow_right₀ (by norm_num) (by omega)
    omega
  have hd : m ∣ w - (u - q * v) := by
    have h1 : (2:ℤ) ^ 64 ∣ w - (u - q * v) := Int.dvd_of_emod_eq_zero hw
    have h2 : m ∣ (2:ℤ) ^ 64 := by rw [hm]; exact pow_dvd_pow 2 (by omega)
    exact h2.trans h1
  have e : w * x - c = (w - (u - q * v)) * x + (u * x - a) - q * (v * x - b) := by rw [hc]; linear_combination hq
  rw [e]
  exact dvd_sub (dvd_add (hd.mul_right x) hu) (hv.mul_left q)

/-- minv m x r: 0 ≤ r < m and m ∣ x * r - 1. -/
theorem bez_inverse (x m u : ℤ) (h : m ∣ u * (x % m) - 1) : m ∣ x * (u % m) - 1 := by
  have e : x * (u % m) - 1 = (u * (x % m) - 1) + m * (u * (x / m) - x * (u / m)) := by
    have h1 := Int.emod_add_mul_ediv x m
    have h2 := Int.emod_add_mul_ediv u m
    linear_combination (-u) * h1 + x * h2
  rw [e]; exact dvd_add h (dvd_mul_right _ _)

theorem minv_mod (m x r : ℤ) (K : ℕ) (hm : m = 2 ^ K) (hlt : m < 2 ^ 64) : m ∣ x * r - 1 ↔ m ∣ (x % 2 ^ 64) * r - 1 := by
  have hK : K < 64 := by
    by_contra h
    have : (2:ℤ) ^ 64 ≤ 2 ^ K := pow_le_pow_right₀ (by norm_num) (by omega)
    omega
  have hd : m ∣ x - x % 2 ^ 64 := (hm ▸ pow_dvd_pow 2 (by omega) : m ∣ (2:ℤ) ^ 64).trans (Int.dvd_self_sub_emod)
  have e : x * r - 1 = ((x % 2 ^ 64) * r - 1) + (x - x % 2 ^ 64) * r := by ring
  rw [e]; exact (dvd_add_left (hd.mul_right r))

theorem minv_odd (N d r : ℤ) (h : 2 * N ∣ d * r - 1) : r % 2 = 1 := by
  obtain ⟨k, hk⟩ := h
  have : (d * r) % 2 = 1 := by rw [show d * r = 1 + 2 * (N * k) by linear_combination hk]; omega
  rw [Int.mul_emod] at this
  rcases Int.emod_two_eq_zero_or_one r with h | h
  · rw [h] at this; simp at this
  · exact h

theorem log2_double (N K : ℕ) (hN : N = 2 ^ K) : Nat.log2 (2 * N) = K + 1 ∧ 2 * N = 2 ^ (K + 1) := by
  have : 2 * N = 2 ^ (K + 1) := by rw [hN, pow_succ]; ring
  rw [this, Nat.log2_eq_log_two]; exact ⟨Nat.log_pow (by norm_num) _, rfl⟩

-- ---- automorphisms
theorem mod_two_case (N a i t : ℤ) (h0 : 0 ≤ i) (h1 : i < 2 * N) (h : a - i = 2 * N * t) : a % (2 * N) = i := by
  have : a = i + 2 * N * t := by linear_combination h
  rw [this, Int.add_mul_emod_self_left]; exact Int.emod_eq_of_lt h0 h1

/-- The automorphism of the inverse index takes every coefficient back, with the same sign. -/
theorem aut_inverse (N x d di i : ℤ) (h0 : 0 ≤ i) (h1 : i < N) (hx : d = x % (2 * N)) (hinv : 2 * N ∣ x * di - 1) :
    0 ≤ (i * d) % (2 * N) ∧ (i * d) % (2 * N) < 2 * N ∧
    ((i * d) % (2 * N) < N → ((i * d) % (2 * N) * (di % (2 * N))) % (2 * N) = i) ∧
    (N ≤ (i * d) % (2 * N) → (((i * d) % (2 * N) - N) * (di % (2 * N))) % (2 * N) = i + N) := by
  refine ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega), ?_, ?_⟩
  all_goals
    intro _
    obtain ⟨k, hk⟩ := hinv
    have e1 := Int.emod_add_mul_ediv (i * d) (2 * N)
    have e2 := Int.emod_add_mul_ediv di (2 * N)
    have e3 := Int.emod_add_mul_ediv x (2 * N)
    rw [← hx] at e3
    set j := (i * d) % (2 * N)
    set s := (i * d) / (2 * N)
    set r := di % (2 * N)
    set t := di / (2 * N)
    set y := x / (2 * N)
  · apply mod_two_case N _ i (i * k - i * y * di - i * d * t - s * r) h0 (by omega)
    linear_combination r * e1 + i * d * e2 + i * di * e3 + i * hk
  · have ho : r % 2 = 1 := by
      have hd := minv_odd N x di ⟨k, hk⟩
      rw [← e2] at hd
      rw [show r + 2 * N * t = r + 2 * (N * t) by ring] at hd; omega
    obtain ⟨w, hw⟩ : ∃ w, r = 2 * w + 1 := ⟨r / 2, by omega⟩
    apply mod_two_case N _ (i + N) (i * k - i * y * di - i * d * t - s * r - w - 1) (by omega) (by omega)
    linear_combination r * e1 + i * d * e2 + i * di * e3 + i * hk - N * hw

/-- The same in the transformed form: the points are permuted back. -/
theorem autntt_inverse (N x d di i : ℤ) (_hN : 0 < N) (h0 : 0 ≤ i) (h1 : i < N) (hx : d = x % (2 * N)) (hinv : 2 * N ∣ x * di - 1) :
    ((2 * ((((2 * i + 1) * d) % (2 * N) - 1) / 2) + 1) * (di % (2 * N)) % (2 * N) - 1) / 2 = i := by
  obtain ⟨k, hk⟩ := hinv
  have hd : d % 2 = 1 := by
    have hxo := minv_odd N di x ⟨k, by linear_combination hk⟩
    have e3 := Int.emod_add_mul_ediv x (2 * N)
    rw [hx]; rw [← e3, show x % (2 * N) + 2 * N * (x / (2 * N)) = x % (2 * N) + 2 * (N * (x / (2 * N))) by ring] at hxo; omega
  have hodd : (((2 * i + 1) * d) % (2 * N)) % 2 = 1 := by
    rw [Int.emod_emod_of_dvd _ (dvd_mul_right 2 N), Int.mul_emod, hd]; simp [Int.add_emod]
  have e0 : 2 * ((((2 * i + 1) * d) % (2 * N) - 1) / 2) + 1 = ((2 * i + 1) * d) % (2 * N) := by omega
  rw [e0]
  have e1 := Int.emod_add_mul_ediv ((2 * i + 1) * d) (2 * N)
  have e2 := Int.emod_add_mul_ediv di (2 * N)
  have e3 := Int.emod_add_mul_ediv x (2 * N)
  rw [← hx] at e3
  set j := ((2 * i + 1) * d) % (2 * N)
  set s := ((2 * i + 1) * d) / (2 * N)
  set r := di % (2 * N)
  set t := di / (2 * N)
  set y := x / (2 * N)
  have : j * r % (2 * N) = 2 * i + 1 := by
    apply mod_two_case N _ (2 * i + 1) ((2 * i + 1) * k - (2 * i + 1) * y * di - (2 * i + 1) * d * t - s * r) (by omega) (by omega)
    linear_combination r * e1 + (2 * i + 1) * d * e2 + (2 * i + 1) * di * e3 + (2 * i + 1) * hk
  rw [this]; omega

section
variable {F : Type*} [Field F]

/-- <A x, y> = <x, A^T y> for a map that sends entry i to position P i < N with sign S i, P a bijection, and its declared transpose. -/
theorem signed_permutation_adjoint (N : ℕ) (P : ℕ → ℕ) (S o x o' y : ℕ → F) (hP : ∀ i, i < N → P i < N) (hinj : ∀ i j, i < N → j < N → P i = P j → i = j)
    (h : ∀ i, i < N → o (P i) = S i * x i) (h' : ∀ i, i < N → o' i = S i * y (P i)) :
    ∑ k ∈ range N, o k * y k = ∑ i ∈ range N, x i * o' i := by
  symm
  apply sum_nbij P (fun i hi => mem_range.mpr (hP i (mem_range.mp hi)))
  · intro i hi j hj hij; exact hinj i j (mem_range.mp hi) (mem_range.mp hj) hij
  · have hs : (range N).image P = range N := by
      apply eq_of_subset_of_card_le
      · intro k hk; obtain ⟨i, hi, rfl⟩ := mem_image.mp hk; exact mem_range.mpr (hP i (mem_range.mp hi))
      · rw [card_image_of_injOn]; intro i hi j hj hij; exact hinj i j (mem_range.mp hi) (mem_range.mp hj) hij
    intro k hk
    rw [← hs] at hk
    simpa using hk
  · intro i hi; rw [h i (mem_range.mp hi), h' i (mem_range.mp hi)]; ring

/-- The automorphism contracts are a signed permutation and its transpose. -/
theorem aut_adjoint (K N d : ℕ) (o x o' y : ℕ → F) (hN : N = 2 ^ K) (hd : d % 2 = 1)
    (hlo : ∀ i, i < N → (i * d) % (2 * N) < N → o ((i * d) % (2 * N)) = x i) (hhi : ∀ i, i < N → N ≤ (i * d) % (2 * N) → o ((i * d) % (2 * N) - N) = - x i)
    (hlo' : ∀ i, i < N → (i * d) % (2 * N) < N → o' i = y ((i * d) % (2 * N))) (hhi' : ∀ i, i < N → N ≤ (i * d) % (2 * N) → o' i = - y ((i * d) % (2 * N) - N)) :
    ∑ k ∈ range N, o k * y k = ∑ i ∈ range N, x i * o' i := by
  have hpos : 0 < N := by rw [hN]; positivity
  have hlt : ∀ i, (i * d) % (2 * N) < 2 * N := fun i => Nat.mod_lt _ (by omega)
  apply signed_permutation_adjoint N (fun i => (i * d) % (2 * N) % N) (fun i => if (i * d) % (2 * N) < N then 1 else -1)
  · intro i _; exact Nat.mod_lt _ hpos
  · intro i j hi hj hij
    have hm : i * d ≡ j * d [MOD N] := by
      have a1 : (i * d) % (2 * N) % N = (i * d) % N := Nat.mod_mod_of_dvd _ (dvd_mul_left N 2)
      have a2 : (j * d) % (2 * N) % N = (j * d) % N := Nat.mod_mod_of_dvd _ (dvd_mul_left N 2)
      simp only [a1, a2] at hij; exact hij
    have hc : Nat.gcd N d = 1 := by
      rw [hN]; exact Nat.Coprime.pow_left K (Nat.coprime_two_left.mpr (Nat.odd_iff.mpr hd))
    have := Nat.ModEq.cancel_right_of_coprime hc hm
    rw [Nat.ModEq, Nat.mod_eq_of_lt hi, Nat.mod_eq_of_lt hj] at this; exact this
  · intro i hi
    by_cases h : (i * d) % (2 * N) < N
    · simp only [h, if_true, Nat.mod_eq_of_lt h, one_mul]; exact hlo i hi h
    · have h2 := hlt i
      have : (i * d) % (2 * N) % N = (i * d) % (2 * N) - N := by
        rw [Nat.mod_eq_sub_mod (by omega), Nat.mod_eq_of_lt (by omega)]
      simp only [h, if_false, this, neg_mul, one_mul]; exact hhi i hi (by omega)
  · intro i hi
    by_cases h : (i * d) % (2 * N) < N
    · simp only [h, if_true, Nat.mod_eq_of_lt h, one_mul]; exact hlo' i hi h
    · have h2 := hlt i
      have : (i * d) % (2 * N) % N = (i * d) % (2 * N) - N := by
        rw [Nat.mod_eq_sub_mod (by omega), Nat.mod_eq_of_lt (by omega)]
      simp only [h, if_false, this, neg_mul, one_mul]; exact hhi' i hi (by omega)

/-- In the transformed form: o k = x (P k) and o' (P k) = y k for a bijection P. -/
theorem autntt_adjoint (N : ℕ) (P : ℕ → ℕ) (o x o' y : ℕ → F) (hP : ∀ i, i < N → P i < N) (hinj : ∀ i j, i < N → j < N → P i = P j → i = j)
    (h : ∀ k, k < N → o k = x (P k)) (h' : ∀ k, k < N → o' (P k) = y k) :
    ∑ k ∈ range N, o k * y k = ∑ i ∈ range N, x i * o' i := by
  have := signed_permutation_adjoint N P (fun _ => 1) o' y o x hP hinj (by simpa using h') (by simpa using h)
  rw [show ∑ k ∈ range N, o k * y k = ∑ i ∈ range N, y i * o i from sum_congr rfl (fun _ _ => mul_comm _ _), ← this]
  exact sum_congr rfl (fun _ _ => mul_comm _ _)

-- ---- the transform
/-- What interpolates the reversed and scaled inputs is the transposed transform; e k is the exponent of the k-th root. -/
theorem ntt_transpose (N : ℕ) (g : F) (e : ℕ → ℕ) (v b : ℕ → F) (hg : g ^ N = -1)
    (hord : ∀ m n, m < 2 * N → n < 2 * N → g ^ m = g ^ n → m = n)
    (he : ∀ k, k < N → e k < 2 * N ∧ e k % 2 = 1) (hinj : ∀ j k, j < N → k < N → e j = e k → j = k)
    (hrev : ∀ k, k < N → e (N - 1 - k) + e k = 2 * N)
    (hb : ∀ m, m < N → ∑ k ∈ range N, b k * (g ^ e m) ^ k = (N : F) * v (N - 1 - m)) :
    ∀ k, k < N → b k = ∑ j ∈ range N, v j * (g ^ e j) ^ k := by
  have g2 : g ^ (2 * N) = 1 := by rw [mul_comm, pow_mul, hg]; ring
  have hdet : (Matrix.vandermonde (fun i : Fin N => g ^ e i)).det ≠ 0 := by
    rw [Matrix.det_vandermonde_ne_zero_iff]
    intro i j hij
    exact Fin.ext (hinj i j i.2 j.2 (hord _ _ (he i i.2).1 (he j j.2).1 hij))
  set c : ℕ → F := fun k => ∑ j ∈ range N, v j * (g ^ e j) ^ k with hc
  have hcb : ∀ m, m < N → ∑ k ∈ range N, c k * (g ^ e m) ^ k = (N : F) * v (N - 1 - m) := by
    intro m hm
    have swap : ∑ k ∈ range N, c k * (g ^ e m) ^ k = ∑ j ∈ range N, v j * ∑ k ∈ range N, (g ^ (e j + e m)) ^ k := by
      simp only [hc, sum_mul]
      rw [sum_comm]
      apply sum_congr rfl; intro j _
      rw [mul_sum]; apply sum_congr rfl; intro k _
      rw [pow_add, mul_pow]; ring
    rw [swap, sum_eq_single (N - 1 - m)]
    · rw [hrev m hm, g2]; simp; ring
    · intro j hj hne
      have hjN := mem_range.mp hj
      have hz : g ^ (e j + e m) ≠ 1 := by
        intro h
        apply hne
        apply hinj j (N - 1 - m) hjN (by omega)
        have hr := hrev m hm
        have : g ^ e j = g ^ e (N - 1 - m) := by
          have h2 : g ^ e (N - 1 - m) * g ^ e m = 1 := by rw [← pow_add, hr, g2]
          have h3 : g ^ e j * g ^ e m = 1 := by rw [← pow_add, h]
          have h4 : g ^ e m ≠ 0 := by rintro h0; rw [h0, mul_zero] at h3; exact zero_ne_one h3
          exact mul_right_cancel₀ h4 (h3.trans h2.symm)
        exact hord _ _ (he j hjN).1 (he _ (by omega)).1 this
      have hp : (g ^ (e j + e m)) ^ N = 1 := by
        have o1 := (he j hjN).2
        have o2 := (he m hm).2
        obtain ⟨w, hw⟩ : ∃ w, e j + e m = 2 * w := ⟨(e j + e m) / 2, by omega⟩
        rw [hw, ← pow_mul, show 2 * w * N = 2 * N * w by ring, pow_mul, g2, one_pow]
      have := mul_geom_sum (g ^ (e j + e m)) N
      rw [hp, sub_self] at this
      rcases mul_eq_zero.mp this with h | h
      · exact absurd (sub_eq_zero.mp h) hz
      · rw [h, mul_zero]
    · intro h; exact absurd (mem_range.mpr (by omega)) h
  intro k hk
  have key : ∀ m : Fin N, ∑ k : Fin N, (b k - c k) * (g ^ e m) ^ (k : ℕ) = 0 := by
    intro m
    have h1 := hb m m.2
    have h2 := hcb m m.2
    rw [← Fin.sum_univ_eq_sum_range (fun k => b k * (g ^ e m) ^ k)] at h1
    rw [← Fin.sum_univ_eq_sum_range (fun k => c k * (g ^ e m) ^ k)] at h2
    simp only [sub_mul, sum_sub_distrib]
    rw [h1, h2, sub_self]
  have hv : (Matrix.vandermonde (fun i : Fin N => g ^ e i)).mulVec (fun k => b k - c k) = 0 := by
    ext m
    simp only [Matrix.mulVec, dotProduct, Matrix.vandermonde_apply, Pi.zero_apply]
    rw [← key m]; apply sum_congr rfl; intro k _; ring
  have := Matrix.eq_zero_of_mulVec_eq_zero hdet hv
  have hk' := congrFun this ⟨k, hk⟩
  simpa [sub_eq_zero] using hk'

/-- The transform and the transposed transform are adjoint. -/
theorem ntt_adjoint (N : ℕ) (p : ℕ → F) (x y o o' : ℕ → F) (h : ∀ k, k < N → o k = ∑ j ∈ range N, x j * p k ^ j) (h' : ∀ j, j < N → o' j = ∑ k ∈ range N, y k * p k ^ j) :
    ∑ k ∈ range N, o k * y k = ∑ j ∈ range N, x j * o' j := by
  rw [sum_congr rfl (fun k hk => by rw [h k (mem_range.mp hk), sum_mul]), sum_comm]
  apply sum_congr rfl; intro j hj
  rw [h' j (mem_range.mp hj), mul_sum]; apply sum_congr rfl; intro k _; ring

-- ---- projections
theorem projection_adjoint (R n : ℕ) (P : ℕ → ℕ → Prop) [∀ i j, Decidable (P i j)] (x y o o' : ℕ → F)
    (h : ∀ i, i < R → o i = ∑ j ∈ range n, if P i j then x j else 0) (h' : ∀ j, j < n → o' j = ∑ i ∈ range R, if P i j then y i else 0) :
    ∑ i ∈ range R, o i * y i = ∑ j ∈ range n, x j * o' j := by
  rw [sum_congr rfl (fun i hi => by rw [h i (mem_range.mp hi), sum_mul]), sum_comm]
  apply sum_congr rfl; intro j hj
  rw [h' j (mem_range.mp hj), mul_sum]; apply sum_congr rfl; intro i _; split_ifs <;> ring

theorem block_div (D i j k : ℤ) (hk : k = i * D + j) (h0 : 0 ≤ j) (h1 : j < D) : k / D = i ∧ k % D = j := by
  have hD : D ≠ 0 := by omega
  rw [hk, add_comm]
  constructor
  · rw [Int.add_mul_ediv_right _ _ hD, Int.ediv_eq_zero_of_lt h0 h1, zero_add]
  · rw [Int.add_mul_emod_self_right]; exact Int.emod_eq_of_lt h0 h1

theorem recomposition_adjoint (M D : ℕ) (b x y o o' : ℕ → F)
    (h : ∀ i, i < M → o i = ∑ j ∈ range D, b j * x (i * D + j)) (h' : ∀ i j, i < M → j < D → o' (i * D + j) = b j * y i) :
    ∑ i ∈ range M, o i * y i = ∑ i ∈ range M, ∑ j ∈ range D, x (i * D + j) * o' (i * D + j) := by
  apply sum_congr rfl; intro i hi
  rw [h i (mem_range.mp hi), sum_mul]; apply sum_congr rfl; intro j hj
  rw [h' i j (mem_range.mp hi) (mem_range.mp hj)]; ring

/-- Reversal of the L low bits (the function of bitrev.lean). -/
def rv : ℕ → ℕ → ℕ
  | 0, _ => 0
  | L + 1, a => rv L (a / 2) + (a % 2) * 2 ^ L

theorem rv_lt (L a : ℕ) : rv L a < 2 ^ L := by
  induction L generalizing a with
  | zero => simp [rv]
  | succ L ih =>
    have := ih (a / 2)
    rw [rv, pow_succ]
    have h : a % 2 < 2 := Nat.mod_lt _ (by norm_num)
    interval_cases h2 : a % 2 <;> omega

/-- Reversing the complement complements the reversal. -/
theorem rv_complement (L a : ℕ) (ha : a < 2 ^ L) : rv L (2 ^ L - 1 - a) + rv L a = 2 ^ L - 1 := by
  induction L generalizing a with
  | zero => simp [rv]
  | succ L ih =>
    rw [pow_succ] at ha ⊢
    have h1 : (2 ^ L * 2 - 1 - a) / 2 = 2 ^ L - 1 - a / 2 := by omega
    have h2 : (2 ^ L * 2 - 1 - a) % 2 = 1 - a % 2 := by omega
    have := ih (a / 2) (by omega)
    have hp : 0 < 2 ^ L := by positivity
    rw [rv, rv, h1, h2]
    rcases Nat.mod_two_eq_zero_or_one a with h | h <;> rw [h] <;> omega

theorem rv_injective (L a b : ℕ) (ha : a < 2 ^ L) (hb : b < 2 ^ L) (h : rv L a = rv L b) : a = b := by
  induction L generalizing a b with
  | zero => simp at ha hb; omega
  | succ L ih =>
    rw [rv, rv] at h
    have l1 := rv_lt L (a / 2); have l2 := rv_lt L (b / 2)
    rw [pow_succ] at ha hb
    rcases Nat.mod_two_eq_zero_or_one a with e1 | e1 <;> rcases Nat.mod_two_eq_zero_or_one b with e2 | e2 <;> rw [e1, e2] at h
    · have := ih (a / 2) (b / 2) (by omega) (by omega) (by omega); omega
    · omega
    · omega
    · have := ih (a / 2) (b / 2) (by omega) (by omega) (by omega); omega

/-- What the contract of the transposed transform says (vcg/cons_buckler.py): b is the vector whose values at the roots are N times the input reversed. -/
theorem ntt_transpose_rv (K : ℕ) (g : F) (v b : ℕ → F) (h1 : (1 : F) ≠ -1) (hg : g ^ 2 ^ K = -1)
    (hb : ∀ m, m < 2 ^ K → ∑ k ∈ range (2 ^ K), b k * (g ^ (2 * rv K m + 1)) ^ k = ((2 ^ K : ℕ) : F) * v (2 ^ K - 1 - m)) :
    ∀ k, k < 2 ^ K → b k = ∑ j ∈ range (2 ^ K), v j * (g ^ (2 * rv K j + 1)) ^ k := by
  have ho : orderOf g = 2 ^ (K + 1) := orderOf_eq_prime_pow (by rw [hg]; exact fun h => h1 h.symm) (by rw [pow_succ, pow_mul, hg]; ring)
  apply ntt_transpose (2 ^ K) g (fun k => 2 * rv K k + 1) v b hg
  · intro m n hm hn h
    exact pow_injOn_Iio_orderOf (by simp only [Set.mem_Iio, ho, pow_succ]; omega) (by simp only [Set.mem_Iio, ho, pow_succ]; omega) h
  · intro k _; have := rv_lt K k; constructor <;> omega
  · intro j k hj hk h; exact rv_injective K j k hj hk (by simpa using h)
  · intro k hk
    have := rv_complement K k hk
    have hp : 0 < 2 ^ K := by positivity
    omega
  · exact hb

/-- The reduction of the contract's statement to the previous one, with e k = 2 rv k + 1: transform and declared transpose are adjoint. -/
theorem ntt_checker_adjoint (K : ℕ) (g : F) (x y o o' : ℕ → F) (h1 : (1 : F) ≠ -1) (hg : g ^ 2 ^ K = -1)
    (h : ∀ k, k < 2 ^ K → o k = ∑ j ∈ range (2 ^ K), x j * (g ^ (2 * rv K k + 1)) ^ j)
    (h' : ∀ m, m < 2 ^ K → ∑ k ∈ range (2 ^ K), o' k * (g ^ (2 * rv K m + 1)) ^ k = ((2 ^ K : ℕ) : F) * y (2 ^ K - 1 - m)) :
    ∑ k ∈ range (2 ^ K), o k * y k = ∑ j ∈ range (2 ^ K), x j * o' j :=
  ntt_adjoint (2 ^ K) (fun k => g ^ (2 * rv K k + 1)) x y o o' h (ntt_transpose_rv K g y o' h1 hg h')
end
