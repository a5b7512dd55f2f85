/- The algebra behind the batched checks: what the verifier's final identities say about the constraints. -/
import Mathlib
open Polynomial
set_option linter.all false
namespace Batch
variable {F : Type*} [Field F]

/-- `horner b c n`: the first `n` values combined by Horner's rule (the recurrence `batch` of the contracts). -/
def horner (b : F) (c : ℕ → F) : ℕ → F
  | 0 => 0
  | n + 1 => horner b c n * b + c n

/-- Every constraint has a power of the batching constant to itself. -/
theorem batch_powers (b : F) (c : ℕ → F) (n : ℕ) : horner b c n = ∑ i ∈ Finset.range n, c i * b ^ (n - 1 - i) := by
  induction n with
  | zero => simp [horner]
  | succ n ih =>
    rw [horner, ih, Finset.sum_range_succ, Finset.sum_mul]
    simp only [Nat.add_sub_cancel, Nat.sub_self, pow_zero, mul_one]
    congr 1
    apply Finset.sum_congr rfl
    intro i hi
    have hi := Finset.mem_range.mp hi
    rw [mul_assoc, ← pow_succ]
    congr 2
    omega

/-- Constraints that all hold batch to zero, whatever the batching constant. -/
theorem batch_complete (b : F) (c : ℕ → F) (n : ℕ) (h : ∀ i < n, c i = 0) : horner b c n = 0 := by
  rw [batch_powers]; apply Finset.sum_eq_zero; intro i hi; rw [h i (Finset.mem_range.mp hi), zero_mul]

/-- If some constraint is violated, fewer than `n` batching constants make the batch vanish: errors cannot cancel for the others. -/
theorem batch_sound (c : ℕ → F) (n i : ℕ) (hi : i < n) (hc : c i ≠ 0) : ∃ s : Finset F, s.card ≤ n - 1 ∧ ∀ b, horner b c n = 0 → b ∈ s := by
  classical
  let p : F[X] := ∑ k ∈ Finset.range n, Polynomial.C (c k) * X ^ (n - 1 - k)
  have hcoeff : p.coeff (n - 1 - i) = c i := by
    simp only [p, finset_sum_coeff, coeff_C_mul, coeff_X_pow]
    rw [Finset.sum_eq_single i]
    · simp
    · intro k hk hne
      have hk := Finset.mem_range.mp hk
      rw [if_neg (by omega), mul_zero]
    · intro h; exact absurd (Finset.mem_range.mpr hi) h
  have hp : p ≠ 0 := by intro h; rw [h] at hcoeff; simp at hcoeff; exact hc hcoeff.symm
  have hd : p.natDegree ≤ n - 1 := by
    apply natDegree_sum_le_of_forall_le
    intro k hk
    exact (natDegree_C_mul_X_pow_le _ _).trans (Nat.sub_le _ _)
  refine ⟨p.roots.toFinset, (Multiset.toFinset_card_le _).trans ((card_roots' p).trans hd), ?_⟩
  intro b hb
  rw [Multiset.mem_toFinset, mem_roots hp, IsRoot.def]
  simp only [p, eval_finset_sum, eval_mul, eval_C, eval_pow, eval_X]
  rw [← batch_powers]; exact hb

/-- The values a polynomial of the form quotient * (X^N - 1) + X * lo + s takes on the N-th roots of unity add up to N * s, if lo has low degree. -/
theorem sum_over_roots (N : ℕ) (w : F) (hw : IsPrimitiveRoot w N) (hN : 0 < N) (q lo : F[X]) (s : F) (hlo : lo.degree < ((N - 1 : ℕ) : WithBot ℕ)) :
    ∑ j ∈ Finset.range N, (q * (X ^ N - 1) + X * lo + Polynomial.C s).eval (w ^ j) = N * s := by
  have hv : ∀ j, (w ^ j) ^ N = 1 := by intro j; rw [← pow_mul, mul_comm, pow_mul, hw.pow_eq_one, one_pow]
  have h1 : ∀ j, (q * (X ^ N - 1) + X * lo + Polynomial.C s).eval (w ^ j) = (X * lo).eval (w ^ j) + s := by
    intro j; simp [hv j]
  simp only [h1, Finset.sum_add_distrib, Finset.sum_const, Finset.card_range, nsmul_eq_mul]
  have h2 : ∑ j ∈ Finset.range N, (X * lo).eval (w ^ j) = 0 := by
    by_cases h0 : lo = 0
    · simp [h0]
    have hdeg : lo.natDegree < N - 1 := by
      rw [degree_eq_natDegree h0] at hlo; exact_mod_cast hlo
    have : ∀ j, (X * lo).eval (w ^ j) = ∑ k ∈ Finset.range (N - 1), lo.coeff k * (w ^ j) ^ (k + 1) := by
      intro j
      rw [eval_mul, eval_X, eval_eq_sum_range' hdeg, Finset.mul_sum]
      apply Finset.sum_congr rfl; intro k _; ring
    simp only [this]
    rw [Finset.sum_comm]
    apply Finset.sum_eq_zero
    intro k hk
    have hk := Finset.mem_range.mp hk
    rw [← Finset.mul_sum]
    have hne : w ^ (k + 1) ≠ 1 := hw.pow_ne_one_of_pos_of_lt (by omega) (by omega)
    have hg : ∑ j ∈ Finset.range N, (w ^ j) ^ (k + 1) = 0 := by
      have e : ∀ j, (w ^ j) ^ (k + 1) = (w ^ (k + 1)) ^ j := by intro j; rw [← pow_mul, ← pow_mul, mul_comm]
      simp only [e]
      have hm := geom_sum_mul (w ^ (k + 1)) N
      rw [show (w ^ (k + 1)) ^ N = 1 from hv (k + 1), sub_self] at hm
      exact (mul_eq_zero.mp hm).resolve_right (sub_ne_zero.mpr hne)
    rw [hg, mul_zero]
  rw [h2, zero_add]

/-- If X^(R-(N-1)) * lo is a polynomial of degree below R, then lo has degree below N-1. -/
theorem low_degree (R N : ℕ) (h : N - 1 ≤ R) (hi lo : F[X]) (hR : hi.degree < (R : WithBot ℕ)) (e : hi = X ^ (R - (N - 1)) * lo) : lo.degree < ((N - 1 : ℕ) : WithBot ℕ) := by
  by_cases h0 : lo = 0
  · rw [h0, degree_zero]; exact WithBot.bot_lt_coe _
  rw [e, degree_mul, degree_X_pow, degree_eq_natDegree h0] at hR
  rw [degree_eq_natDegree h0]
  have : R - (N - 1) + lo.natDegree < R := by exact_mod_cast hR
  have : lo.natDegree < N - 1 := by omega
  exact_mod_cast this

/-- A polynomial that is a multiple of X^N - 1 vanishes on all N-th roots of unity: every slot satisfies the constraint. -/
theorem vanishing_slots (N : ℕ) (w : F) (hw : w ^ N = 1) (p q : F[X]) (h : p = q * (X ^ N - 1)) (j : ℕ) : p.eval (w ^ j) = 0 := by
  rw [h, eval_mul, eval_sub, eval_pow, eval_X, eval_one, ← pow_mul, mul_comm j, pow_mul, hw, one_pow, sub_self, mul_zero]

/-- Two different polynomials of degree below d agree on fewer than d points: an identity that fails as polynomials is caught by all other evaluation points. -/
theorem point_sound (d : ℕ) (p q : F[X]) (hp : p.degree < (d : WithBot ℕ)) (hq : q.degree < (d : WithBot ℕ)) (hne : p ≠ q) : ∃ s : Finset F, s.card ≤ d - 1 ∧ ∀ x, p.eval x = q.eval x → x ∈ s := by
  classical
  have hd : (p - q).degree < (d : WithBot ℕ) := lt_of_le_of_lt (degree_sub_le p q) (max_lt hp hq)
  have hn : p - q ≠ 0 := sub_ne_zero.mpr hne
  refine ⟨(p - q).roots.toFinset, ?_, ?_⟩
  · refine (Multiset.toFinset_card_le _).trans ((card_roots' _).trans ?_)
    rw [degree_eq_natDegree hn] at hd
    have : (p - q).natDegree < d := by exact_mod_cast hd
    omega
  · intro x hx
    rw [Multiset.mem_toFinset, mem_roots hn, IsRoot.def, eval_sub, hx, sub_self]
end Batch
namespace Batch
variable {F : Type*} [Field F]
/-- Zero coefficients do not count. -/
theorem tail_zero (N R : ℕ) (h : N ≤ R) (b : ℕ → F) (hz : ∀ k, N ≤ k → k < R → b k = 0) (x : F) : ∑ k ∈ Finset.range R, b k * x ^ k = ∑ k ∈ Finset.range N, b k * x ^ k := by
  symm; apply Finset.sum_subset (Finset.range_subset_range.mpr h)
  intro k hk hn
  rw [hz k (by simpa using hn) (Finset.mem_range.mp hk), zero_mul]
/-- Adding r at X^N and taking r from the constant term changes no value at an N-th root of unity. -/
theorem blind_slots (N R : ℕ) (h0 : 0 < N) (h : N < R) (a b : ℕ → F) (x : F) (hx : x ^ N = 1) (ha : a N = 0) (hb : b 0 + b N = a 0) (hs : ∀ k, 1 ≤ k → k < R → k ≠ N → a k = b k) :
    ∑ k ∈ Finset.range R, b k * x ^ k = ∑ k ∈ Finset.range R, a k * x ^ k := by
  rw [← sub_eq_zero, ← Finset.sum_sub_distrib]
  have e : ∀ k ∈ Finset.range R, b k * x ^ k - a k * x ^ k = (if k = 0 then - b N else 0) + (if k = N then b N else 0) := by
    intro k hk
    have hk := Finset.mem_range.mp hk
    by_cases k0 : k = 0
    · subst k0; rw [if_pos rfl, if_neg (by omega), ← hb]; ring
    by_cases kN : k = N
    · subst kN; rw [if_neg k0, if_pos rfl, ha, hx]; ring
    · rw [if_neg k0, if_neg kN, hs k (by omega) hk kN]; ring
  rw [Finset.sum_congr rfl e, Finset.sum_add_distrib, Finset.sum_ite_eq', Finset.sum_ite_eq', if_pos (Finset.mem_range.mpr (by omega)), if_pos (Finset.mem_range.mpr h)]
  ring
end Batch
