import Mathlib
/-! The seven field moduli are prime: Lucas certificates, evaluated by the kernel. -/
set_option exponentiation.threshold 2000
namespace Primes
/-- b ^ e mod q with an accumulator; the fuel bounds the bit length of e -/
def pm (q : ℕ) : ℕ → ℕ → ℕ → ℕ → ℕ
  | 0, _, _, acc => acc
  | f + 1, b, e, acc => pm q f (b * b % q) (e / 2) (if e % 2 = 1 then acc * b % q else acc)

theorem pm_spec (q : ℕ) : ∀ f b e acc, e < 2 ^ f → ((pm q f b e acc : ℕ) : ZMod q) = acc * (b : ZMod q) ^ e := by
  intro f
  induction f with
  | zero => intro b e acc h; have : e = 0 := by simpa using h
            subst this; simp [pm]
  | succ f ih =>
    intro b e acc h
    rw [pm, ih _ _ _ (by rw [pow_succ] at h; omega)]
    have he : e = 2 * (e / 2) + e % 2 := (Nat.div_add_mod e 2).symm
    have hb : ((b * b % q : ℕ) : ZMod q) = (b : ZMod q) ^ 2 := by rw [ZMod.natCast_mod]; push_cast; ring
    rw [hb, ← pow_mul]
    rcases Nat.mod_two_eq_zero_or_one e with h0 | h0
    · rw [if_neg (by omega)]; congr 2; omega
    · rw [if_pos h0, ZMod.natCast_mod]; push_cast
      conv_rhs => rw [he, h0, pow_succ]
      ring

theorem lucas (q a f : ℕ) (ps : List ℕ) (hq : 1 < q) (hf : q - 1 < 2 ^ f) (h1 : pm q f a (q - 1) 1 = 1) (hp : ∀ p, p.Prime → p ∣ q - 1 → p ∈ ps)
    (h2 : ∀ p ∈ ps, pm q f a ((q - 1) / p) 1 % q ≠ 1) : q.Prime := by
  refine lucas_primality q (a : ZMod q) ?_ ?_
  · have := pm_spec q f a (q - 1) 1 hf
    rw [h1] at this; simpa using this.symm
  · intro p pp pd he
    have hs := pm_spec q f a ((q - 1) / p) 1 (lt_of_le_of_lt (Nat.div_le_self _ _) hf)
    rw [he] at hs
    have : ((pm q f a ((q - 1) / p) 1 : ℕ) : ZMod q) = ((1 : ℕ) : ZMod q) := by simpa using hs
    rw [ZMod.natCast_eq_natCast_iff'] at this
    exact h2 p (hp p pp pd) (by rw [this]; exact Nat.mod_eq_of_lt hq)

theorem prime_buckler_zp110 : Nat.Prime 651593272302216031082905600000001 := by
  refine lucas _ 3 110 [2, 5, 79] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 651593272302216031082905600000001 - 1 = 2 ^ 40 * 5 ^ 8 * 79 ^ 8 := by norm_num
  have hd : p ∣ 2 ^ 40 * 5 ^ 8 * 79 ^ 8 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  rcases (Nat.Prime.dvd_mul pp).1 h with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 5)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 79)).1 (pp.dvd_of_dvd_pow h); simp [this]

theorem prime_buckler_zp220 : Nat.Prime 866164698536318627630433566627438485097014392484667933731707682817 := by
  refine lucas _ 3 220 [2, 7, 59] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 866164698536318627630433566627438485097014392484667933731707682817 - 1 = 2 ^ 80 * 7 ^ 16 * 59 ^ 16 := by norm_num
  have hd : p ∣ 2 ^ 80 * 7 ^ 16 * 59 ^ 16 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  rcases (Nat.Prime.dvd_mul pp).1 h with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 7)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 59)).1 (pp.dvd_of_dvd_pow h); simp [this]

theorem prime_buckler_zp440 : Nat.Prime 1524152314838800808878517307905666316166600026504147740881727850285489358288732127100465223835548632892701496015589229868546372141057 := by
  refine lucas _ 5 440 [2, 3, 563] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 1524152314838800808878517307905666316166600026504147740881727850285489358288732127100465223835548632892701496015589229868546372141057 - 1 = 2 ^ 96 * 3 ^ 32 * 563 ^ 32 := by norm_num
  have hd : p ∣ 2 ^ 96 * 3 ^ 32 * 563 ^ 32 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  rcases (Nat.Prime.dvd_mul pp).1 h with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 3)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 563)).1 (pp.dvd_of_dvd_pow h); simp [this]

theorem prime_buckler_zp880 : Nat.Prime 5469412841907964198432938302506237735287051881434643508826449968632352984287023846502526837844914603106459954915108330288646961703720089438556856532005861944780660712982129505199218219085462091631139392493379725384201280060606557464931314170434947966767177238839297 := by
  refine lucas _ 3 880 [2, 41, 167] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 5469412841907964198432938302506237735287051881434643508826449968632352984287023846502526837844914603106459954915108330288646961703720089438556856532005861944780660712982129505199218219085462091631139392493379725384201280060606557464931314170434947966767177238839297 - 1 = 2 ^ 64 * 41 ^ 64 * 167 ^ 64 := by norm_num
  have hd : p ∣ 2 ^ 64 * 41 ^ 64 * 167 ^ 64 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  rcases (Nat.Prime.dvd_mul pp).1 h with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 41)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 167)).1 (pp.dvd_of_dvd_pow h); simp [this]

theorem prime_jindo_zp : Nat.Prime 30328410223599748147607520977081886083447339834150524071065831666857642295297 := by
  refine lucas _ 3 255 [2, 3767] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 30328410223599748147607520977081886083447339834150524071065831666857642295297 - 1 = 2 ^ 64 * 3767 ^ 16 := by norm_num
  have hd : p ∣ 2 ^ 64 * 3767 ^ 16 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 3767)).1 (pp.dvd_of_dvd_pow h); simp [this]

theorem prime_examples_mult_zp : Nat.Prime 173781037896907480464522812403918831617 := by
  refine lucas _ 3 128 [2, 7, 269] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 173781037896907480464522812403918831617 - 1 = 2 ^ 40 * 7 ^ 8 * 269 ^ 8 := by norm_num
  have hd : p ∣ 2 ^ 40 * 7 ^ 8 * 269 ^ 8 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  rcases (Nat.Prime.dvd_mul pp).1 h with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 7)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 269)).1 (pp.dvd_of_dvd_pow h); simp [this]

theorem prime_examples_bfv_zp : Nat.Prime 907720728193388676174032015609668945673929339161088914959807723786469377 := by
  refine lucas _ 3 240 [2, 3929] (by norm_num) (by norm_num) (by decide +kernel) ?_ (by decide +kernel)
  intro p pp pd
  have e : 907720728193388676174032015609668945673929339161088914959807723786469377 - 1 = 2 ^ 48 * 3929 ^ 16 := by norm_num
  have hd : p ∣ 2 ^ 48 * 3929 ^ 16 := by rwa [e] at pd
  rcases (Nat.Prime.dvd_mul pp).1 hd with h | h
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 2)).1 (pp.dvd_of_dvd_pow h); simp [this]
  · have := (Nat.prime_dvd_prime_iff_eq pp (by norm_num : Nat.Prime 3929)).1 (pp.dvd_of_dvd_pow h); simp [this]

end Primes
