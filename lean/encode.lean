/- Digits, residues and the encoding of field elements as vectors of digits. -/
import Mathlib

namespace Encode

/-- quotient and remainder are unique -/
theorem div_unique (x y q r : ℤ) (hy : 0 < y) (h : x = y * q + r) (h0 : 0 ≤ r) (h1 : r < y) : q = x / y ∧ r = x % y := by
  have h2 : x / y = q := by
    rw [h, Int.add_comm, Int.add_mul_ediv_left _ _ (by omega), Int.ediv_eq_zero_of_lt h0 h1, zero_add]
  have h3 : x % y = r := by
    rw [h, Int.add_comm, Int.add_mul_emod_self_left, Int.emod_eq_of_lt h0 h1]
  exact ⟨h2.symm, h3.symm⟩

/-- what remains after taking j digits -/
def rest (x b : ℕ) : ℕ → ℕ
  | 0 => x
  | j + 1 => rest x b j / b
def digit (x b j : ℕ) : ℕ := rest x b j % b

theorem rest_eq (x b j : ℕ) : rest x b j = x / b ^ j := by
  induction j with
  | zero => simp [rest]
  | succ j ih => rw [rest, ih, Nat.div_div_eq_div_mul, pow_succ]

/-- the digits and what remains make up the number -/
theorem digits_sum (x b n : ℕ) : (∑ j ∈ Finset.range n, digit x b j * b ^ j) + rest x b n * b ^ n = x := by
  induction n with
  | zero => simp [rest]
  | succ n ih =>
    have h : rest x b n = digit x b n + b * rest x b (n + 1) := by
      show rest x b n = rest x b n % b + b * (rest x b n / b)
      exact (Nat.mod_add_div _ _).symm
    rw [Finset.sum_range_succ]
    calc _ = (∑ j ∈ Finset.range n, digit x b j * b ^ j) + (digit x b n + b * rest x b (n + 1)) * b ^ n := by ring
      _ = (∑ j ∈ Finset.range n, digit x b j * b ^ j) + rest x b n * b ^ n := by rw [← h]
      _ = x := ih

/-- the top digit of a number up to b^n is at most b -/
theorem top_digit (x b n : ℕ) (hb : 0 < b) (hn : 1 ≤ n) (hx : x ≤ b ^ n) : rest x b (n - 1) ≤ b := by
  rw [rest_eq]
  have h : b ^ n = b * b ^ (n - 1) := by
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    simp [pow_succ, Nat.mul_comm]
  have := Nat.div_le_div_right (c := b ^ (n - 1)) (hx.trans_eq h)
  rwa [Nat.mul_div_cancel _ (Nat.pos_of_ne_zero (by positivity))] at this

/-- value of the digits d_j, .., d_{n-1} at the base, Horner's way -/
def hz {R : Type*} [CommRing R] (B : R) (d : ℕ → R) (n : ℕ) : ℕ → R
  | 0 => 0
  | k + 1 => hz B d n k * B + d (n - 1 - k)

theorem hz_sum {R : Type*} [CommRing R] (B : R) (d : ℕ → R) (n k : ℕ) (h : k ≤ n) : hz B d n k = ∑ i ∈ Finset.range k, d (n - k + i) * B ^ i := by
  induction k with
  | zero => simp [hz]
  | succ k ih =>
    rw [hz, ih (by omega), Finset.sum_range_succ', Finset.sum_mul]
    congr 1
    · apply Finset.sum_congr rfl
      intro i _
      rw [show n - (k + 1) + (i + 1) = n - k + i by omega, pow_succ, mul_assoc]
    · rw [show n - (k + 1) + 0 = n - 1 - k by omega]; simp

/-- decoding the digits of a number gives the number, in every ring -/
theorem decode_encode {R : Type*} [CommRing R] (x b n : ℕ) (hn : 1 ≤ n) (d : ℕ → R) (hd : ∀ j, j + 1 < n → d j = (digit x b j : R)) (ht : d (n - 1) = (rest x b (n - 1) : R)) :
    hz (b : R) d n n = (x : R) := by
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  rw [hz_sum _ _ _ _ le_rfl, Finset.sum_range_succ]
  have h := digits_sum x b m
  have h1 : ∀ i ∈ Finset.range m, d (m + 1 - (m + 1) + i) * (b : R) ^ i = (digit x b i : R) * (b : R) ^ i := by
    intro i hi
    rw [show m + 1 - (m + 1) + i = i by omega, hd i (by have := Finset.mem_range.mp hi; omega)]
  rw [Finset.sum_congr rfl h1, show m + 1 - (m + 1) + m = m by omega]
  simp only [Nat.add_sub_cancel] at ht
  rw [ht]
  have h2 := congrArg (Nat.cast : ℕ → R) h
  push_cast at h2
  exact h2

/-- multiples of X^S - b decode to nothing where X^S stands for b: the value at b of the rows of (X^S - b) s, as X^(n S) = -1 and b^n = -1 -/
theorem blinding_decodes_to_zero {R : Type*} [CommRing R] (B : R) (s : ℕ → R) (n : ℕ) (hn : 1 ≤ n) (hB : B ^ n = -1) :
    (∑ j ∈ Finset.range n, ((if j = 0 then -s (n - 1) else s (j - 1)) - B * s j) * B ^ j) = 0 := by
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  have h : ∀ m : ℕ, (∑ j ∈ Finset.range (m + 1), ((if j = 0 then (0 : R) else s (j - 1)) - B * s j) * B ^ j) = - s m * B ^ (m + 1) := by
    intro m
    induction m with
    | zero => simp [mul_comm]
    | succ m ih => rw [Finset.sum_range_succ, ih]; simp; ring
  have h2 := h m
  rw [Finset.sum_range_succ'] at h2 ⊢
  simp only [Nat.add_sub_cancel, if_true, Nat.add_eq_zero_iff, one_ne_zero, and_false, if_false, pow_zero, mul_one] at h2 ⊢
  have h3 : -s m * B ^ (m + 1) = s m := by rw [hB]; ring
  rw [h3] at h2
  have : (∑ k ∈ Finset.range m, (s k - B * s (k + 1)) * B ^ (k + 1)) = s m - (0 - B * s 0) := by rw [← h2]; ring
  rw [this]; ring

/-- positions of a matrix with S columns -/
theorem position (S j i : ℤ) (hi : 0 ≤ i) (h : i < S) : (j * S + i) / S = j ∧ (j * S + i) % S = i := by
  obtain ⟨a, b⟩ := div_unique (j * S + i) S j i (by omega) (by ring) hi h
  exact ⟨a.symm, b.symm⟩
theorem position_of (S m : ℤ) (h : 0 < S) : m = (m / S) * S + m % S ∧ 0 ≤ m % S ∧ m % S < S :=
  ⟨by have := Int.mul_ediv_add_emod m S; linarith [mul_comm S (m / S)], Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ h⟩

/-- Go's remainder of a negative number, plus the modulus, is its residue -/
theorem trunc_mod (v q : ℤ) (h : 0 < q) : (q - (-v) % q) % q = v % q ∧ 0 ≤ (-v) % q ∧ (-v) % q < q := by
  refine ⟨?_, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ h⟩
  have := Int.mul_ediv_add_emod (-v) q
  rw [show q - (-v) % q = v + q * (1 + (-v) / q) by linarith]
  exact Int.add_mul_emod_self_left _ _ _

/-- the balanced residue is congruent to the residue -/
theorem balanced_mod (x q : ℤ) (h0 : 0 ≤ x) (h1 : x < q) : (if 2 * x > q then x - q else x) % q = x := by
  split
  · rw [Int.sub_emod, Int.emod_self, sub_zero, Int.emod_emod]; exact Int.emod_eq_of_lt h0 h1
  · exact Int.emod_eq_of_lt h0 h1

/-- partial sums of residues times gadget entries have the residues -/
theorem gadget_residue (n : ℕ) (x g : ℕ → ℤ) (q : ℤ) (l : ℕ) (hl : l < n) (hq : 1 < q) (hx : 0 ≤ x l ∧ x l < q) (hg : ∀ j < n, g j % q = if j = l then 1 else 0) :
    (∑ j ∈ Finset.range n, x j * g j) % q = x l := by
  have h : (∑ j ∈ Finset.range n, x j * g j) ≡ ∑ j ∈ Finset.range n, x j * (if j = l then 1 else 0) [ZMOD q] := by
    apply Int.ModEq.sum
    intro j hj
    apply Int.ModEq.mul_left
    have := hg j (Finset.mem_range.mp hj)
    show g j % q = _ % q
    rw [this]
    split
    · exact (Int.emod_eq_of_lt (by omega) hq).symm
    · simp
  rw [h]
  simp only [mul_ite, mul_one, mul_zero, Finset.sum_ite_eq', Finset.mem_range, hl, if_true]
  exact Int.emod_eq_of_lt hx.1 hx.2

/-- reducing by a multiple of q keeps residues modulo q -/
theorem mod_mod_product (x Q q : ℤ) (h : Q % q = 0) : (x % Q) % q = x % q ∧ (x % Q - Q) % q = x % q := by
  have hd : q ∣ Q := Int.dvd_of_emod_eq_zero h
  have h1 : (x % Q) % q = x % q := Int.emod_emod_of_dvd _ hd
  exact ⟨h1, by rw [Int.sub_emod, h, sub_zero, Int.emod_emod, h1]⟩

/-- entries of the gadget: (Q/q)·v mod Q is 1 modulo q when v inverts Q/q, and 0 where q' divides Q/q -/
theorem gadget_entry (d v Q q : ℤ) (h : Q % q = 0) : (d * v % Q) % q = d * v % q ∧ (d % q = 0 → d * v % q = 0) := by
  refine ⟨Int.emod_emod_of_dvd _ (Int.dvd_of_emod_eq_zero h), fun h0 => ?_⟩
  exact Int.emod_eq_zero_of_dvd (Dvd.dvd.mul_right (Int.dvd_of_emod_eq_zero h0) v)

/-- an integer of absolute value at most half the product is determined by its residues -/
theorem crt_unique {ι : Type*} (s : Finset ι) (q : ι → ℤ) (v w : ℤ) (hc : (s : Set ι).Pairwise fun i j => IsCoprime (q i) (q j)) (h : ∀ i ∈ s, v % q i = w % q i)
    (hv : -(∏ i ∈ s, q i) < 2 * v ∧ 2 * v ≤ ∏ i ∈ s, q i) (hw : -(∏ i ∈ s, q i) < 2 * w ∧ 2 * w ≤ ∏ i ∈ s, q i) : v = w := by
  have hd : (∏ i ∈ s, q i) ∣ v - w := by
    apply Finset.prod_dvd_of_coprime hc
    intro i hi
    exact Int.dvd_of_emod_eq_zero (Int.emod_eq_emod_iff_emod_sub_eq_zero.mp (h i hi))
  obtain ⟨k, hk⟩ := hd
  have : k = 0 := by
    by_contra hne
    rcases lt_or_gt_of_ne hne with h1 | h1
    · nlinarith [hv.1, hv.2, hw.1, hw.2]
    · nlinarith [hv.1, hv.2, hw.1, hw.2]
  rw [this, mul_zero] at hk
  linarith

/-- exact roots of a power are powers to the double exponent -/
theorem power_of_root (s b e : ℕ) (h : s * s = b) : s ^ (2 * e) = b ^ e := by rw [← h, pow_mul, pow_two]
theorem root_smaller (s b : ℤ) (h : s * s = b) (h0 : 0 ≤ s) (hb : 1 < b) : 1 < s ∧ s < b := by constructor <;> nlinarith

end Encode
