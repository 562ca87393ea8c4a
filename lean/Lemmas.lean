import Mathlib.Analysis.SpecialFunctions.Trigonometric.Deriv
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic
import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Analysis.Calculus.LocalExtr.Basic
import Mathlib.Algebra.Order.Ring.Abs
import Mathlib.Analysis.MeanInequalities

/-! Mathematical facts instantiated by the verifier (specs/kernel_elem.py). -/

open Real Set

/-- the minimum of sin over an interval without minimum point is at an endpoint -/
theorem sin_min {a b t : ℝ} (ha : a ≤ t) (hb : t ≤ b)
    (h : ¬ ∃ k : ℤ, a ≤ -(π/2) + k * (2*π) ∧ -(π/2) + k * (2*π) ≤ b) :
    sin a ≤ sin t ∨ sin b ≤ sin t := by
  by_contra hc
  push Not at hc
  obtain ⟨h1, h2⟩ := hc
  obtain ⟨c, hcI, hcmin⟩ := isCompact_Icc.exists_isMinOn (s := Icc a b) ⟨t, ha, hb⟩ continuous_sin.continuousOn
  have hct : sin c ≤ sin t := hcmin ⟨ha, hb⟩
  have hca : a < c := lt_of_le_of_ne hcI.1 (fun e => by subst e; linarith)
  have hcb : c < b := lt_of_le_of_ne hcI.2 (fun e => by subst e; linarith)
  have hloc : IsLocalMin sin c := hcmin.isLocalMin (Icc_mem_nhds hca hcb)
  have hcos : cos c = 0 := hloc.hasDerivAt_eq_zero (hasDerivAt_sin c)
  have hs := sin_sq_add_cos_sq c
  rw [hcos] at hs
  have : sin c = 1 ∨ sin c = -1 := by
    have : (sin c - 1) * (sin c + 1) = 0 := by nlinarith
    rcases mul_eq_zero.mp this with h | h
    · left; linarith
    · right; linarith
  rcases this with h1' | h1'
  · have := sin_le_one a; linarith
  · have h2' : cos (c + π/2) = 1 := by rw [cos_add_pi_div_two]; linarith
    obtain ⟨k, hk⟩ := (Real.cos_eq_one_iff _).mp h2'
    have hk' : -(π/2) + k * (2*π) = c := by linarith
    exact h ⟨k, by rw [hk']; exact hcI.1, by rw [hk']; exact hcI.2⟩

theorem sin_max {a b t : ℝ} (ha : a ≤ t) (hb : t ≤ b)
    (h : ¬ ∃ k : ℤ, a ≤ π/2 + k * (2*π) ∧ π/2 + k * (2*π) ≤ b) :
    sin t ≤ sin a ∨ sin t ≤ sin b := by
  have := @sin_min (a - π) (b - π) (t - π) (by linarith) (by linarith) ?_
  · simp only [sin_sub_pi] at this
    rcases this with h | h
    · left; linarith
    · right; linarith
  · rintro ⟨k, h1, h2⟩
    exact h ⟨k, by linarith, by linarith⟩

theorem cos_max {a b t : ℝ} (ha : a ≤ t) (hb : t ≤ b)
    (h : ¬ ∃ k : ℤ, a ≤ 0 + k * (2*π) ∧ 0 + k * (2*π) ≤ b) :
    cos t ≤ cos a ∨ cos t ≤ cos b := by
  have := @sin_max (a + π/2) (b + π/2) (t + π/2) (by linarith) (by linarith) ?_
  · simpa only [sin_add_pi_div_two] using this
  · rintro ⟨k, h1, h2⟩
    exact h ⟨k, by linarith, by linarith⟩

theorem cos_min {a b t : ℝ} (ha : a ≤ t) (hb : t ≤ b)
    (h : ¬ ∃ k : ℤ, a ≤ π + k * (2*π) ∧ π + k * (2*π) ≤ b) :
    cos a ≤ cos t ∨ cos b ≤ cos t := by
  have := @sin_max (a - π/2) (b - π/2) (t - π/2) (by linarith) (by linarith) ?_
  · simp only [sin_sub_pi_div_two] at this
    rcases this with h | h
    · left; linarith
    · right; linarith
  · rintro ⟨k, h1, h2⟩
    exact h ⟨k, by linarith, by linarith⟩

/-- the facts about x**n used for a symbolic exponent -/
theorem pow_facts (x y : ℝ) (n : ℕ) :
    (n = 0 → x^n = 1) ∧ (Even n → 0 ≤ x^n) ∧ (¬ Even n → 0 ≤ x → 0 ≤ x^n) ∧ (¬ Even n → x ≤ 0 → x^n ≤ 0) ∧
    (0 < n → x = 0 → x^n = 0) ∧ (¬ Even n → x ≤ y → x^n ≤ y^n) ∧
    (Even n → |x| ≤ |y| → x^n ≤ y^n) := by
  refine ⟨?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · rintro rfl; simp
  · intro h; exact h.pow_nonneg x
  · intro _ h; exact pow_nonneg h n
  · intro h hx; exact (Nat.not_even_iff_odd.mp h).pow_nonpos hx
  · intro h hx; subst hx; exact zero_pow (by omega)
  · intro h hxy; exact (Nat.not_even_iff_odd.mp h).strictMono_pow.monotone hxy
  · intro h hxy
    rw [← h.pow_abs x, ← h.pow_abs y]
    exact pow_le_pow_left₀ (abs_nonneg x) hxy n

/-- the value of power's ghost factor |x|**(n - n % 2) times its start -/
theorem pow_split (x : ℝ) (n : ℕ) :
    (n % 2 = 1 → x * |x|^(n-1) = x^n) ∧ (n % 2 = 0 → |x|^n = x^n) := by
  constructor
  · intro h
    have he : Even (n-1) := by rw [Nat.even_iff]; omega
    rw [he.pow_abs]
    calc x * x^(n-1) = x^(n-1+1) := (pow_succ' x (n-1)).symm
      _ = x^n := by congr 1; omega
  · intro h
    exact (Nat.even_iff.mpr h).pow_abs x

theorem sqrt_eq_exp_log {t : ℝ} (ht : 0 < t) : exp (1/2 * log t) = √t := by
  rw [Real.sqrt_eq_rpow, Real.rpow_def_of_pos ht, mul_comm]

theorem rpow_eq_exp_log {t : ℝ} (r : ℝ) (ht : 0 < t) : exp (r * log t) = t ^ r := by
  rw [Real.rpow_def_of_pos ht, mul_comm]

theorem exp_mono {x y : ℝ} (h : x ≤ y) : exp x ≤ exp y := exp_le_exp.mpr h
theorem log_mono {x y : ℝ} (hx : 0 < x) (h : x ≤ y) : log x ≤ log y := Real.log_le_log hx h

/-- the triangle inequality of the p-norm distance, from the triangle inequality of every component -/
theorem pnorm_dist_triangle {ι : Type*} (s : Finset ι) (f g h : ι → ℝ) (p : ℕ) (hp : 1 ≤ p) (hf : ∀ i ∈ s, 0 ≤ f i)
    (hg : ∀ i ∈ s, 0 ≤ g i) (hh : ∀ i ∈ s, 0 ≤ h i) (hle : ∀ i ∈ s, h i ≤ f i + g i) :
    (∑ i ∈ s, h i ^ (p:ℝ)) ^ (1 / (p:ℝ)) ≤ (∑ i ∈ s, f i ^ (p:ℝ)) ^ (1 / (p:ℝ)) + (∑ i ∈ s, g i ^ (p:ℝ)) ^ (1 / (p:ℝ)) := by
  have hp' : (1:ℝ) ≤ p := by exact_mod_cast hp
  refine le_trans ?_ (Real.Lp_add_le_of_nonneg s hp' hf hg)
  refine Real.rpow_le_rpow (Finset.sum_nonneg fun i hi => Real.rpow_nonneg (hh i hi) _) ?_ (by positivity)
  exact Finset.sum_le_sum fun i hi => Real.rpow_le_rpow (hh i hi) (hle i hi) (by positivity)
