import Mathlib.Tactic

/-- Reversal of the L low bits. -/
def rv : ℕ → ℕ → ℕ
  | 0, _ => 0
  | L + 1, a => rv L (a / 2) + (a % 2) * 2 ^ L

/-- The recurrence used in the contracts. -/
theorem rv_unfold (L a : ℕ) : rv (L + 1) a = rv L (a / 2) + (a % 2) * 2 ^ L := rfl

theorem rv_zero (L : ℕ) : rv L 0 = 0 := by
  induction L with
  | zero => rfl
  | succ L ih => simp [rv, ih]

theorem rv_lt (L a : ℕ) : rv L a < 2 ^ L := by
  induction L generalizing a with
  | zero => simp [rv]
  | succ L ih =>
    have := ih (a / 2)
    rw [rv, pow_succ]
    have h : a % 2 < 2 := Nat.mod_lt _ (by norm_num)
    interval_cases h2 : a % 2 <;> omega

/-- Splitting off the top bit instead of the low bit. -/
theorem rv_top (L a e : ℕ) (ha : a < 2 ^ L) (he : e < 2) : rv (L + 1) (a + e * 2 ^ L) = 2 * rv L a + e := by
  induction L generalizing a with
  | zero =>
    have : a = 0 := by simpa using ha
    subst this
    interval_cases e <;> simp [rv]
  | succ L ih =>
    have hd : (a + e * 2 ^ (L + 1)) / 2 = a / 2 + e * 2 ^ L := by
      have : e * 2 ^ (L + 1) = 2 * (e * 2 ^ L) := by ring
      rw [this]; omega
    have hm : (a + e * 2 ^ (L + 1)) % 2 = a % 2 := by
      have : e * 2 ^ (L + 1) = 2 * (e * 2 ^ L) := by ring
      rw [this]; omega
    have ha2 : a / 2 < 2 ^ L := by rw [pow_succ] at ha; omega
    rw [rv, hd, hm, ih (a / 2) ha2, rv, pow_succ]; ring

theorem rv_rv (L a : ℕ) (ha : a < 2 ^ L) : rv L (rv L a) = a := by
  induction L generalizing a with
  | zero => simp at ha; simp [rv, ha]
  | succ L ih =>
    have ha2 : a / 2 < 2 ^ L := by rw [pow_succ] at ha; omega
    rw [rv_unfold L a, rv_top L (rv L (a / 2)) (a % 2) (rv_lt L _) (Nat.mod_lt _ (by norm_num)), ih _ ha2]
    omega

theorem rv_one (L : ℕ) : rv (L + 1) 1 = 2 ^ L := by simp [rv, rv_zero]

/-- Entries below half the length have an even reversed index, twice the reversal one level down. -/
theorem rv_half (L a : ℕ) (ha : a < 2 ^ L) : rv (L + 1) a = 2 * rv L a := by
  simpa using rv_top L a 0 ha (by norm_num)
