import Mathlib.Tactic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.FieldTheory.Finite.Basic
open Finset

/-! What the recurrences in the contracts of the number-theoretic transform (vcg/cons_ntt.py) compute. -/

theorem two_pow_split (K l : ℕ) (h : l < K) : 2 * (2 ^ l * 2 ^ (K - l - 1)) = 2 ^ K := by
  rw [← pow_add, ← pow_succ']; congr 1; omega

/-- Reversal of the L low bits (the function of bitrev.lean). -/
def rv : ℕ → ℕ → ℕ
  | 0, _ => 0
  | L + 1, a => rv L (a / 2) + (a % 2) * 2 ^ L

theorem rv_top (L a e : ℕ) (ha : a < 2 ^ L) (he : e < 2) : rv (L + 1) (a + e * 2 ^ L) = 2 * rv L a + e := by
  induction L generalizing a with
  | zero =>
    have : a = 0 := by simpa using ha
    subst this
    interval_cases e <;> simp [rv]
  | succ L ih =>
    have hd : (a + e * 2 ^ (L + 1)) / 2 = a / 2 + e * 2 ^ L := by
      have : e * 2 ^ (L + 1) = 2 * (e * 2 ^ L) := by ring
      rw [this]; omega
    have hm : (a + e * 2 ^ (L + 1)) % 2 = a % 2 := by
      have : e * 2 ^ (L + 1) = 2 * (e * 2 ^ L) := by ring
      rw [this]; omega
    have ha2 : a / 2 < 2 ^ L := by rw [pow_succ] at ha; omega
    rw [rv, hd, hm, ih (a / 2) ha2, rv, pow_succ]; ring

theorem rv_low (d L a : ℕ) (ha : a < 2 ^ L) : rv (L + d) a = 2 ^ d * rv L a := by
  induction d with
  | zero => simp
  | succ d ih =>
    have : a < 2 ^ (L + d) := lt_of_lt_of_le ha (Nat.pow_le_pow_right (by norm_num) (by omega))
    have := rv_top (L + d) a 0 this (by norm_num)
    simp only [zero_mul, add_zero] at this
    rw [← add_assoc, this, ih, pow_succ]; ring

section
variable {F : Type*} [CommRing F]

/-- NT satisfies the defining equations of the forward transform of length 2^K with twiddle factors tw. -/
def IsNT (K : ℕ) (tw : ℕ → F) (NT : ℕ → ℕ → F) : Prop :=
  ∀ l i r, l < K → i < 2 ^ l → r < 2 ^ (K - l - 1) →
    NT (l + 1) (2 * (i * 2 ^ (K - l - 1)) + r) = NT l (2 * (i * 2 ^ (K - l - 1)) + r) + tw (2 ^ l + i) * NT l (2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1)) ∧
    NT (l + 1) (2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1)) = NT l (2 * (i * 2 ^ (K - l - 1)) + r) - tw (2 ^ l + i) * NT l (2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1))

/-- NI satisfies the defining equations of the inverse transform. -/
def IsNI (K : ℕ) (tw : ℕ → F) (NI : ℕ → ℕ → F) : Prop :=
  ∀ s i r, s < K → i < 2 ^ (K - s - 1) → r < 2 ^ s →
    NI (s + 1) (2 * (i * 2 ^ s) + r) = NI s (2 * (i * 2 ^ s) + r) + NI s (2 * (i * 2 ^ s) + r + 2 ^ s) ∧
    NI (s + 1) (2 * (i * 2 ^ s) + r + 2 ^ s) = (NI s (2 * (i * 2 ^ s) + r) - NI s (2 * (i * 2 ^ s) + r + 2 ^ s)) * tw (2 ^ (K - s - 1) + i)

/-- Every entry below 2^K lies in one of the two halves of a block of round l. -/
theorem block (K l k : ℕ) (hl : l < K) (hk : k < 2 ^ K) :
    ∃ i r, i < 2 ^ l ∧ r < 2 ^ (K - l - 1) ∧ (k = 2 * (i * 2 ^ (K - l - 1)) + r ∨ k = 2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1)) := by
  set t := 2 ^ (K - l - 1) with ht
  have htp : 0 < t := by positivity
  have hs := two_pow_split K l hl
  rw [← ht] at hs
  have hdm := Nat.div_add_mod k (2 * t)
  have hm : k % (2 * t) < 2 * t := Nat.mod_lt _ (by omega)
  have hi : k / (2 * t) < 2 ^ l := by
    rw [Nat.div_lt_iff_lt_mul (by omega)]
    calc k < 2 ^ K := hk
      _ = 2 ^ l * (2 * t) := by rw [← hs]; ring
  have hassoc : 2 * t * (k / (2 * t)) = 2 * (k / (2 * t) * t) := by ring
  by_cases h : k % (2 * t) < t
  · exact ⟨k / (2 * t), k % (2 * t), hi, h, Or.inl (by omega)⟩
  · exact ⟨k / (2 * t), k % (2 * t) - t, hi, by omega, Or.inr (by omega)⟩

/-- The transform is evaluation: with a tree of points rho, each the square of its two children, the children of node (l, i) being tw and -tw. -/
theorem ntt_tree (K : ℕ) (tw : ℕ → F) (p : ℕ → F) (NT : ℕ → ℕ → F) (rho : ℕ → ℕ → F)
    (hn : IsNT K tw NT) (h0 : ∀ k, k < 2 ^ K → NT 0 k = p k)
    (hl : ∀ l i, l < K → i < 2 ^ l → rho (l + 1) (2 * i) = tw (2 ^ l + i) ∧ rho (l + 1) (2 * i + 1) = - tw (2 ^ l + i) ∧ tw (2 ^ l + i) ^ 2 = rho l i) :
    ∀ l i r, l ≤ K → i < 2 ^ l → r < 2 ^ (K - l) → NT l (i * 2 ^ (K - l) + r) = ∑ j ∈ range (2 ^ l), p (r + j * 2 ^ (K - l)) * rho l i ^ j := by
  intro l
  induction l with
  | zero =>
    intro i r _ hi hr
    simp at hi hr
    subst hi
    simp [h0 r hr]
  | succ l ih =>
    intro i r hlK hi hr
    have hlK' : l < K := by omega
    have e1 : K - (l + 1) = K - l - 1 := by omega
    rw [e1] at hr ⊢
    set t := 2 ^ (K - l - 1) with ht
    have e2 : 2 ^ (K - l) = 2 * t := by rw [ht, ← pow_succ']; congr 1; omega
    have hi2 : i / 2 < 2 ^ l := by rw [pow_succ] at hi; omega
    obtain ⟨hpos, hneg, hsq⟩ := hl l (i / 2) hlK' hi2
    obtain ⟨s1, s2⟩ := hn l (i / 2) r hlK' hi2 hr
    rw [← ht] at s1 s2
    have a1 := ih (i / 2) r (by omega) hi2 (by rw [e2]; omega)
    have a2 := ih (i / 2) (r + t) (by omega) hi2 (by rw [e2]; omega)
    rw [e2] at a1 a2
    have x1 : 2 * (i / 2 * t) + r = i / 2 * (2 * t) + r := by ring
    have x2 : 2 * (i / 2 * t) + r + t = i / 2 * (2 * t) + (r + t) := by ring
    have hsum : ∀ w : F, w ^ 2 = rho l (i / 2) → ∑ j ∈ range (2 ^ (l + 1)), p (r + j * t) * w ^ j =
        (∑ j ∈ range (2 ^ l), p (r + j * (2 * t)) * rho l (i / 2) ^ j) + w * ∑ j ∈ range (2 ^ l), p (r + t + j * (2 * t)) * rho l (i / 2) ^ j := by
      intro w hw
      rw [pow_succ', mul_comm 2, sum_range_mul_two, mul_sum, ← sum_add_distrib]
      apply sum_congr rfl
      intro j _
      rw [show r + 2 * j * t = r + j * (2 * t) by ring, show r + (2 * j + 1) * t = r + t + j * (2 * t) by ring, ← hw]
      ring
    rcases Nat.even_or_odd' i with ⟨c, hc | hc⟩
    · have hd : i / 2 = c := by omega
      rw [hd] at hpos hneg hsq s1 s2 a1 a2 x1 x2 hsum
      rw [hc, show 2 * c * t + r = 2 * (c * t) + r by ring, s1, x2, x1, a1, a2, hpos, hsum _ hsq]
    · have hd : i / 2 = c := by omega
      rw [hd] at hpos hneg hsq s1 s2 a1 a2 x1 x2 hsum
      rw [hc, show (2 * c + 1) * t + r = 2 * (c * t) + r + t by ring, s2, x2, x1, a1, a2, hneg, hsum (- tw (2 ^ l + c)) (by rw [neg_sq]; exact hsq)]
      ring
where
  sum_range_mul_two {f : ℕ → F} {n : ℕ} : ∑ j ∈ range (n * 2), f j = ∑ j ∈ range n, (f (2 * j) + f (2 * j + 1)) := by
    induction n with
    | zero => simp
    | succ n ih => rw [show (n + 1) * 2 = n * 2 + 1 + 1 by ring, sum_range_succ, sum_range_succ, ih, sum_range_succ, mul_comm n 2]; ring

/-- Negacyclic transform: entry k is the value of the polynomial at g^(2 rv k + 1), a primitive root of X^N + 1. -/
theorem ntt_negacyclic (K : ℕ) (g : F) (tw p : ℕ → F) (NT : ℕ → ℕ → F) (hn : IsNT K tw NT) (h0 : ∀ k, k < 2 ^ K → NT 0 k = p k)
    (hg : g ^ 2 ^ K = -1) (htw : ∀ k, k < 2 ^ K → tw k = g ^ rv K k) (k : ℕ) (hk : k < 2 ^ K) :
    NT K k = ∑ j ∈ range (2 ^ K), p j * (g ^ (2 * rv K k + 1)) ^ j := by
  have := ntt_tree K tw p NT (fun l i => g ^ ((2 * rv l i + 1) * 2 ^ (K - l))) hn h0 ?_ K k 0 le_rfl hk (by simp)
  · simpa using this
  · intro l i hl hi
    have hlt : 2 ^ l + i < 2 ^ (l + 1) := by rw [pow_succ]; omega
    have hKl : K = (l + 1) + (K - l - 1) := by omega
    have htwi : tw (2 ^ l + i) = g ^ ((2 * rv l i + 1) * 2 ^ (K - l - 1)) := by
      rw [htw _ (lt_of_lt_of_le hlt (Nat.pow_le_pow_right (by norm_num) (by omega)))]
      congr 1
      have h1 := rv_low (K - l - 1) (l + 1) (2 ^ l + i) hlt
      rw [← hKl] at h1
      have h2 := rv_top l i 1 hi (by norm_num)
      rw [one_mul, add_comm i] at h2
      rw [h1, h2]; ring
    have e1 : K - (l + 1) = K - l - 1 := by omega
    have e2 : 2 ^ (K - l) = 2 * 2 ^ (K - l - 1) := by rw [← pow_succ']; congr 1; omega
    refine ⟨?_, ?_, ?_⟩
    · simp only [e1, rv]; rw [htwi]; simp
    · simp only [e1, rv]; rw [htwi, show (2 * i + 1) / 2 = i by omega, show (2 * i + 1) % 2 = 1 by omega]
      have : (2 * (rv l i + 1 * 2 ^ l) + 1) * 2 ^ (K - l - 1) = (2 * rv l i + 1) * 2 ^ (K - l - 1) + 2 ^ K := by
        rw [← two_pow_split K l hl]; ring
      rw [this, pow_add, hg]; ring
    · rw [htwi, ← pow_mul, e2]; congr 1; ring

/-- Cyclic transform: entry k is the value of the polynomial at g^(rv k). -/
theorem ntt_cyclic (K : ℕ) (g : F) (tw p : ℕ → F) (NT : ℕ → ℕ → F) (hn : IsNT K tw NT) (h0 : ∀ k, k < 2 ^ K → NT 0 k = p k)
    (hg : g ^ 2 ^ (K - 1) = -1) (htw : ∀ l i, l < K → i < 2 ^ l → tw (2 ^ l + i) = g ^ rv (K - 1) i) (k : ℕ) (hk : k < 2 ^ K) :
    NT K k = ∑ j ∈ range (2 ^ K), p j * (g ^ rv K k) ^ j := by
  rcases Nat.eq_zero_or_pos K with rfl | hK
  · have : k = 0 := by simpa using hk
    subst this; simp [h0]
  have hg2 : g ^ 2 ^ K = 1 := by
    have : 2 ^ K = 2 ^ (K - 1) * 2 := by rw [← pow_succ]; congr 1; omega
    rw [this, pow_mul, hg]; ring
  have := ntt_tree K tw p NT (fun l i => g ^ (rv l i * 2 ^ (K - l))) hn h0 ?_ K k 0 le_rfl hk (by simp)
  · simpa using this
  · intro l i hl hi
    have htwi : tw (2 ^ l + i) = g ^ (rv l i * 2 ^ (K - l - 1)) := by
      rw [htw l i hl hi]
      congr 1
      have h1 := rv_low (K - l - 1) l i hi
      rw [show l + (K - l - 1) = K - 1 by omega] at h1
      rw [h1]; ring
    have e1 : K - (l + 1) = K - l - 1 := by omega
    have e2 : 2 ^ (K - l) = 2 * 2 ^ (K - l - 1) := by rw [← pow_succ']; congr 1; omega
    refine ⟨?_, ?_, ?_⟩
    · simp only [e1, rv]; rw [htwi]; simp
    · simp only [e1, rv]; rw [htwi, show (2 * i + 1) / 2 = i by omega, show (2 * i + 1) % 2 = 1 by omega]
      have : (rv l i + 1 * 2 ^ l) * 2 ^ (K - l - 1) = rv l i * 2 ^ (K - l - 1) + 2 ^ (K - 1) := by
        have := two_pow_split K l hl
        have h3 : 2 ^ K = 2 * 2 ^ (K - 1) := by rw [← pow_succ']; congr 1; omega
        rw [add_mul, one_mul]; omega
      rw [this, pow_add, hg]; ring
    · rw [htwi, ← pow_mul, e2]; congr 1; ring

/-- The inverse transform of a transform is the input, times the length. -/
theorem intt_of_ntt (K : ℕ) (tw twi : ℕ → F) (NT NI : ℕ → ℕ → F) (hn : IsNT K tw NT) (hi : IsNI K twi NI)
    (hinv : ∀ l i, l < K → i < 2 ^ l → tw (2 ^ l + i) * twi (2 ^ l + i) = 1)
    (h0 : ∀ k, k < 2 ^ K → NI 0 k = NT K k) (k : ℕ) (hk : k < 2 ^ K) : NI K k = 2 ^ K * NT 0 k := by
  have key : ∀ s, s ≤ K → ∀ k, k < 2 ^ K → NI s k = 2 ^ s * NT (K - s) k := by
    intro s
    induction s with
    | zero => intro _ k hk; simp [h0 k hk]
    | succ s ih =>
      intro hs k hk
      have hl : K - s - 1 < K := by omega
      obtain ⟨i, r, hi', hr, hk'⟩ := block K (K - s - 1) k hl hk
      have es : K - (K - s - 1) - 1 = s := by omega
      rw [es] at hr hk'
      obtain ⟨n1, n2⟩ := hn (K - s - 1) i r hl hi' (by rw [es]; exact hr)
      obtain ⟨i1, i2⟩ := hi s i r (by omega) hi' hr
      rw [es, show K - s - 1 + 1 = K - s by omega] at n1 n2
      have hsp := two_pow_split K (K - s - 1) hl
      rw [es] at hsp
      have hin : i * 2 ^ s + 2 ^ s ≤ 2 ^ (K - s - 1) * 2 ^ s := by
        have := Nat.mul_le_mul_right (2 ^ s) (show i + 1 ≤ 2 ^ (K - s - 1) from hi')
        linarith
      have hb1 := ih (by omega) (2 * (i * 2 ^ s) + r) (by omega)
      have hb2 := ih (by omega) (2 * (i * 2 ^ s) + r + 2 ^ s) (by omega)
      have hv := hinv _ i hl hi'
      rw [show K - (s + 1) = K - s - 1 by omega]
      rcases hk' with rfl | rfl
      · rw [i1, hb1, hb2, n1, n2]; ring
      · rw [i2, hb1, hb2, n1, n2, pow_succ]
        linear_combination 2 ^ s * 2 * NT (K - s - 1) (2 * (i * 2 ^ s) + r + 2 ^ s) * hv
  simpa using key K le_rfl k hk

/-- The transform of an inverse transform, scaled by the inverse of the length, is the input. -/
theorem ntt_of_intt (K : ℕ) (tw twi : ℕ → F) (NT NI : ℕ → ℕ → F) (c : F) (hn : IsNT K tw NT) (hi : IsNI K twi NI)
    (hinv : ∀ l i, l < K → i < 2 ^ l → tw (2 ^ l + i) * twi (2 ^ l + i) = 1)
    (hc : c * 2 ^ K = 1) (h0 : ∀ k, k < 2 ^ K → NT 0 k = NI K k * c) (k : ℕ) (hk : k < 2 ^ K) : NT K k = NI 0 k := by
  have key : ∀ l, l ≤ K → ∀ k, k < 2 ^ K → NT l k = c * 2 ^ l * NI (K - l) k := by
    intro l
    induction l with
    | zero => intro _ k hk; simp [h0 k hk]; ring
    | succ l ih =>
      intro hlK k hk
      have hl : l < K := by omega
      obtain ⟨i, r, hi', hr, hk'⟩ := block K l k hl hk
      have es : K - (K - l - 1) - 1 = l := by omega
      obtain ⟨n1, n2⟩ := hn l i r hl hi' hr
      obtain ⟨i1, i2⟩ := hi (K - l - 1) i r (by omega) (by rw [es]; exact hi') hr
      rw [show K - l - 1 + 1 = K - l by omega] at i1 i2
      rw [es] at i2
      have hsp := two_pow_split K l hl
      have hin : i * 2 ^ (K - l - 1) + 2 ^ (K - l - 1) ≤ 2 ^ l * 2 ^ (K - l - 1) := by
        have := Nat.mul_le_mul_right (2 ^ (K - l - 1)) (show i + 1 ≤ 2 ^ l from hi')
        linarith
      have hb1 := ih (by omega) (2 * (i * 2 ^ (K - l - 1)) + r) (by omega)
      have hb2 := ih (by omega) (2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1)) (by omega)
      have hv := hinv l i hl hi'
      rw [i1] at hb1
      rw [i2] at hb2
      rw [show K - (l + 1) = K - l - 1 by omega]
      rcases hk' with rfl | rfl
      · rw [n1, hb1, hb2, pow_succ]
        linear_combination c * 2 ^ l * (NI (K - l - 1) (2 * (i * 2 ^ (K - l - 1)) + r) - NI (K - l - 1) (2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1))) * hv
      · rw [n2, hb1, hb2, pow_succ]
        linear_combination (-(c * 2 ^ l * (NI (K - l - 1) (2 * (i * 2 ^ (K - l - 1)) + r) - NI (K - l - 1) (2 * (i * 2 ^ (K - l - 1)) + r + 2 ^ (K - l - 1))))) * hv
  have := key K le_rfl k hk
  rw [this, hc]; simp

/-- Multiplying the values at a root of X^N + 1 is multiplying modulo X^N + 1. -/
theorem negacyclic_product (N : ℕ) (a b c : ℕ → F) (x : F) (hx : x ^ N = -1)
    (hc : ∀ k, k < N → c k = ∑ i ∈ range N, ∑ j ∈ range N, ((if i + j = k then a i * b j else 0) - (if i + j = k + N then a i * b j else 0))) :
    ∑ k ∈ range N, c k * x ^ k = (∑ i ∈ range N, a i * x ^ i) * (∑ j ∈ range N, b j * x ^ j) := by
  have h1 : ∀ k ∈ range N, c k * x ^ k = ∑ i ∈ range N, ∑ j ∈ range N, ((if i + j = k then a i * b j else 0) - (if i + j = k + N then a i * b j else 0)) * x ^ k := by
    intro k hk; rw [hc k (mem_range.mp hk), sum_mul]; apply sum_congr rfl; intro i _; rw [sum_mul]
  rw [sum_congr rfl h1, sum_comm, sum_mul_sum]
  apply sum_congr rfl
  intro i hi
  rw [sum_comm]
  apply sum_congr rfl
  intro j hj
  have hi := mem_range.mp hi; have hj := mem_range.mp hj
  by_cases h : i + j < N
  · rw [sum_eq_single (i + j)]
    · simp [show ¬ (N = 0) by omega]; ring
    · intro k _ hne; simp [Ne.symm hne, show ¬ (i + j = k + N) by omega]
    · intro hn; exact absurd (mem_range.mpr h) hn
  · have hN : N ≤ i + j := by omega
    rw [sum_eq_single (i + j - N)]
    · rw [if_neg (by omega), if_pos (by omega)]
      have : x ^ i * x ^ j = x ^ (i + j - N) * x ^ N := by rw [← pow_add, ← pow_add]; congr 1; omega
      rw [hx] at this
      linear_combination (-(a i * b j)) * this
    · intro k hk hne
      have := mem_range.mp hk
      simp [show ¬ (i + j = k) by omega, show ¬ (i + j = k + N) by omega]
    · intro hn; exact absurd (mem_range.mpr (show i + j - N < N by omega)) hn

/-- Multiplying the values at a root of X^N - 1 is multiplying modulo X^N - 1. -/
theorem cyclic_product (N : ℕ) (a b c : ℕ → F) (x : F) (hx : x ^ N = 1)
    (hc : ∀ k, k < N → c k = ∑ i ∈ range N, ∑ j ∈ range N, ((if i + j = k then a i * b j else 0) + (if i + j = k + N then a i * b j else 0))) :
    ∑ k ∈ range N, c k * x ^ k = (∑ i ∈ range N, a i * x ^ i) * (∑ j ∈ range N, b j * x ^ j) := by
  have h1 : ∀ k ∈ range N, c k * x ^ k = ∑ i ∈ range N, ∑ j ∈ range N, ((if i + j = k then a i * b j else 0) + (if i + j = k + N then a i * b j else 0)) * x ^ k := by
    intro k hk; rw [hc k (mem_range.mp hk), sum_mul]; apply sum_congr rfl; intro i _; rw [sum_mul]
  rw [sum_congr rfl h1, sum_comm, sum_mul_sum]
  apply sum_congr rfl
  intro i hi
  rw [sum_comm]
  apply sum_congr rfl
  intro j hj
  have hi := mem_range.mp hi; have hj := mem_range.mp hj
  by_cases h : i + j < N
  · rw [sum_eq_single (i + j)]
    · simp [show ¬ (N = 0) by omega]; ring
    · intro k _ hne; simp [Ne.symm hne, show ¬ (i + j = k + N) by omega]
    · intro hn; exact absurd (mem_range.mpr h) hn
  · have hN : N ≤ i + j := by omega
    rw [sum_eq_single (i + j - N)]
    · rw [if_neg (by omega), if_pos (by omega)]
      have : x ^ i * x ^ j = x ^ (i + j - N) * x ^ N := by rw [← pow_add, ← pow_add]; congr 1; omega
      rw [hx] at this
      linear_combination (-(a i * b j)) * this
    · intro k hk hne
      have := mem_range.mp hk
      simp [show ¬ (i + j = k) by omega, show ¬ (i + j = k + N) by omega]
    · intro hn; exact absurd (mem_range.mpr (show i + j - N < N by omega)) hn
end

/-! The search for a root of unity. -/

/-- Half of the units are not squares, and exactly those have a (q-1)/2-th power other than 1, which then is -1. -/
theorem nonresidue (q : ℕ) [hq : Fact q.Prime] (h2 : q ≠ 2) : ∃ x : ℕ, 2 ≤ x ∧ x < q ∧ ((x : ZMod q) ^ ((q - 1) / 2) = -1) := by
  have hodd := hq.out.eq_two_or_odd.resolve_left h2
  have hcard : ringChar (ZMod q) ≠ 2 := by rw [ZMod.ringChar_zmod_n]; exact h2
  obtain ⟨a, ha⟩ := FiniteField.exists_nonsquare hcard
  have ha0 : a ≠ 0 := by rintro rfl; exact ha ⟨0, by simp⟩
  have ha1 : a ≠ 1 := by rintro rfl; exact ha ⟨1, by simp⟩
  have hdi := FiniteField.pow_dichotomy hcard ha0
  have hne : a ^ (q / 2) ≠ 1 := fun h => ha ((FiniteField.isSquare_iff hcard ha0).mpr (by rwa [ZMod.card]))
  rw [ZMod.card] at hdi
  have hm1 := hdi.resolve_left hne
  have hq1 : (q - 1) / 2 = q / 2 := by omega
  refine ⟨a.val, ?_, ZMod.val_lt a, ?_⟩
  · have h0 : a.val ≠ 0 := fun h => ha0 ((ZMod.val_eq_zero a).mp h)
    have h1 : a.val ≠ 1 := by
      intro h
      apply ha1
      have := ZMod.natCast_zmod_val a
      rw [h] at this; simpa using this.symm
    omega
  · rw [ZMod.natCast_zmod_val, hq1]; exact hm1

theorem euler (q : ℕ) [hq : Fact q.Prime] (h2 : q ≠ 2) (x : ZMod q) (hx : x ≠ 0) (h : x ^ ((q - 1) / 2) ≠ 1) : x ^ ((q - 1) / 2) = -1 := by
  have hcard : ringChar (ZMod q) ≠ 2 := by rw [ZMod.ringChar_zmod_n]; exact h2
  have hodd := hq.out.eq_two_or_odd.resolve_left h2
  have := FiniteField.pow_dichotomy hcard hx
  rw [ZMod.card, show q / 2 = (q - 1) / 2 by omega] at this
  exact this.resolve_left h

theorem pow_pow {F : Type*} [CommRing F] (x : F) (m n : ℕ) : (x ^ m) ^ n = x ^ (m * n) := (pow_mul x m n).symm
theorem pow_inv {F : Type*} [Field F] (x : F) (hx : x ≠ 0) (n : ℕ) : x ^ n * x⁻¹ ^ n = 1 := by rw [← mul_pow, mul_inv_cancel₀ hx, one_pow]

/-- Powers of a root of unity and of its inverse are inverse to each other. -/
theorem root_pow_inv {F : Type*} [Field F] (g : F) (m : ℕ) (hm : 1 ≤ m) (hg : g ^ m = -1) (n : ℕ) : g ^ n * g⁻¹ ^ n = 1 := by
  have : g ≠ 0 := by
    rintro rfl
    rw [zero_pow (by omega)] at hg
    exact one_ne_zero (neg_eq_zero.mp hg.symm)
  exact pow_inv g this n

theorem natCast_inv (q : ℕ) [hq : Fact q.Prime] (n : ℕ) (h0 : 0 < n) (h1 : n < q) : (n : ZMod q) * (n : ZMod q)⁻¹ = 1 := by
  apply mul_inv_cancel₀
  rw [Ne, ZMod.natCast_eq_zero_iff]
  exact fun h => absurd (Nat.le_of_dvd h0 h) (by omega)

theorem one_ne_neg_one (q : ℕ) [hq : Fact q.Prime] (h : 2 < q) : (1 : ZMod q) ≠ -1 := by
  intro he
  have : ((2 : ℕ) : ZMod q) = 0 := by push_cast; linear_combination he
  rw [ZMod.natCast_eq_zero_iff] at this
  exact absurd (Nat.le_of_dvd (by norm_num) this) (by omega)

theorem rv_two_pow (K : ℕ) : rv (K + 1) (2 ^ K) = 1 := by
  have := rv_top K 0 1 (by positivity) (by norm_num)
  have h0 : rv K 0 = 0 := by
    clear this
    induction K with
    | zero => rfl
    | succ K ih => simp [rv, ih]
  simpa [h0] using this

theorem log2_pow (K : ℕ) : Nat.log2 (2 ^ K) = K := by rw [Nat.log2_eq_log_two]; exact Nat.log_pow (by norm_num) K
theorem log2_half (N K : ℕ) (hK : 1 ≤ K) (hN : N = 2 ^ K) : Nat.log2 (N / 2) = K - 1 ∧ N = 2 * (N / 2) := by
  obtain ⟨m, rfl⟩ : ∃ m, K = m + 1 := ⟨K - 1, by omega⟩
  have : N / 2 = 2 ^ m := by rw [hN, pow_succ]; omega
  rw [this, log2_pow, hN, pow_succ]; exact ⟨by omega, by omega⟩

section
variable {F : Type*} [CommRing F]
/-- The inverse transform of b, scaled, is the polynomial with the values b at the roots (negacyclic). -/
theorem intt_negacyclic (K : ℕ) (g c : F) (tw twi : ℕ → F) (NT NI : ℕ → ℕ → F) (hn : IsNT K tw NT) (hi : IsNI K twi NI)
    (hinv : ∀ l i, l < K → i < 2 ^ l → tw (2 ^ l + i) * twi (2 ^ l + i) = 1) (hc : c * 2 ^ K = 1) (h0 : ∀ k, k < 2 ^ K → NT 0 k = NI K k * c)
    (hg : g ^ 2 ^ K = -1) (htw : ∀ k, k < 2 ^ K → tw k = g ^ rv K k) (k : ℕ) (hk : k < 2 ^ K) :
    ∑ j ∈ range (2 ^ K), (NI K j * c) * (g ^ (2 * rv K k + 1)) ^ j = NI 0 k := by
  rw [← ntt_of_intt K tw twi NT NI c hn hi hinv hc h0 k hk]
  exact (ntt_negacyclic K g tw (fun j => NI K j * c) NT hn h0 hg htw k hk).symm

theorem intt_cyclic (K : ℕ) (g c : F) (tw twi : ℕ → F) (NT NI : ℕ → ℕ → F) (hn : IsNT K tw NT) (hi : IsNI K twi NI)
    (hinv : ∀ l i, l < K → i < 2 ^ l → tw (2 ^ l + i) * twi (2 ^ l + i) = 1) (hc : c * 2 ^ K = 1) (h0 : ∀ k, k < 2 ^ K → NT 0 k = NI K k * c)
    (hg : g ^ 2 ^ (K - 1) = -1) (htw : ∀ l i, l < K → i < 2 ^ l → tw (2 ^ l + i) = g ^ rv (K - 1) i) (k : ℕ) (hk : k < 2 ^ K) :
    ∑ j ∈ range (2 ^ K), (NI K j * c) * (g ^ rv K k) ^ j = NI 0 k := by
  rw [← ntt_of_intt K tw twi NT NI c hn hi hinv hc h0 k hk]
  exact (ntt_cyclic K g tw (fun j => NI K j * c) NT hn h0 hg htw k hk).symm

/-- The recurrence of the forward transform has a solution (the axioms that define it are consistent). -/
noncomputable def ntf (K : ℕ) (tw p : ℕ → F) : ℕ → ℕ → F
  | 0, k => p k
  | l + 1, k =>
    let t := 2 ^ (K - l - 1); let i := k / (2 * t)
    if k % (2 * t) < t then ntf K tw p l k + tw (2 ^ l + i) * ntf K tw p l (k + t) else ntf K tw p l (k - t) - tw (2 ^ l + i) * ntf K tw p l k

theorem ntf_is (K : ℕ) (tw p : ℕ → F) : IsNT K tw (ntf K tw p) := by
  intro l i r _ _ hr
  have ht : 0 < 2 ^ (K - l - 1) := by positivity
  have u : ∀ k, ntf K tw p (l + 1) k = if k % (2 * 2 ^ (K - l - 1)) < 2 ^ (K - l - 1) then ntf K tw p l k + tw (2 ^ l + k / (2 * 2 ^ (K - l - 1))) * ntf K tw p l (k + 2 ^ (K - l - 1))
      else ntf K tw p l (k - 2 ^ (K - l - 1)) - tw (2 ^ l + k / (2 * 2 ^ (K - l - 1))) * ntf K tw p l k := fun k => rfl
  generalize 2 ^ (K - l - 1) = t at hr ht u ⊢
  have e : ∀ s, s < 2 * t → (2 * (i * t) + s) / (2 * t) = i ∧ (2 * (i * t) + s) % (2 * t) = s := by
    intro s hs
    have h2 : 2 * (i * t) + s = s + 2 * t * i := by ring
    rw [h2, Nat.add_mul_div_left _ _ (by omega), Nat.add_mul_mod_self_left, Nat.div_eq_of_lt hs, Nat.mod_eq_of_lt hs]; simp
  have a := e r (by omega)
  have b := e (r + t) (by omega)
  rw [← add_assoc] at b
  constructor
  · rw [u, a.1, a.2, if_pos hr]
  · rw [u, b.1, b.2, if_neg (by omega), Nat.add_sub_cancel]
end
theorem interpolation_unique {F : Type*} [Field F] (N : ℕ) (a b x : ℕ → F) (hx : ∀ i j, i < N → j < N → x i = x j → i = j)
    (h : ∀ k, k < N → ∑ j ∈ range N, a j * x k ^ j = ∑ j ∈ range N, b j * x k ^ j) (j : ℕ) (hj : j < N) : a j = b j := by
  have hd : (Matrix.vandermonde (fun i : Fin N => x i)).det ≠ 0 := by
    rw [Matrix.det_vandermonde_ne_zero_iff]
    intro i k hik
    exact Fin.ext (hx i k i.2 k.2 hik)
  have hv : Matrix.mulVec (Matrix.vandermonde (fun i : Fin N => x i)) (fun k : Fin N => a k - b k) = 0 := by
    funext k
    have := h k k.2
    rw [← sub_eq_zero, ← sum_sub_distrib, ← Fin.sum_univ_eq_sum_range (fun j => a j * x k ^ j - b j * x k ^ j)] at this
    simp only [Matrix.mulVec, dotProduct, Matrix.vandermonde_apply, Pi.zero_apply]
    rw [← this]; apply sum_congr rfl; intro i _; ring
  have := congrFun (Matrix.eq_zero_of_mulVec_eq_zero hd hv) ⟨j, hj⟩
  exact sub_eq_zero.mp this

theorem root_order {F : Type*} [Field F] (K : ℕ) (g : F) (h1 : (1 : F) ≠ -1) (hg : g ^ 2 ^ K = -1) : orderOf g = 2 ^ (K + 1) :=
  orderOf_eq_prime_pow (by rw [hg]; exact fun h => h1 h.symm) (by rw [pow_succ, pow_mul, hg]; ring)

theorem points_distinct {F : Type*} [Field F] (K : ℕ) (g : F) (h1 : (1 : F) ≠ -1) (hg : g ^ 2 ^ K = -1) (m n : ℕ) (hm : m < 2 ^ (K + 1)) (hn : n < 2 ^ (K + 1))
    (h : g ^ m = g ^ n) : m = n := by
  have := root_order K g h1 hg
  exact pow_injOn_Iio_orderOf (by simpa [this] using hm) (by simpa [this] using hn) h
