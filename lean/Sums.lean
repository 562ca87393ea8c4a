import Mathlib

/-! The rules about sums over an index range `[lo, hi)` which the deductive engine uses as axioms (pyvc/arr.py),
    and the existence of a position where a quotient is least (specs/array_outer.py). -/

open Finset

/-- the sum of `f` over `lo <= k < hi` -/
noncomputable def S (lo hi : ℤ) (f : ℤ → ℝ) : ℝ := ∑ k ∈ Ico lo hi, f k

theorem sum_split {lo mid hi : ℤ} (h1 : lo ≤ mid) (h2 : mid ≤ hi) (f : ℤ → ℝ) : S lo hi f = S lo mid f + S mid hi f := by
  unfold S
  rw [← Finset.Ico_union_Ico_eq_Ico h1 h2]
  exact Finset.sum_union (Finset.Ico_disjoint_Ico_consecutive lo mid hi)

theorem sum_one (lo : ℤ) (f : ℤ → ℝ) : S lo (lo + 1) f = f lo := by
  unfold S
  have : Ico lo (lo + 1) = {lo} := by ext k; simp only [Finset.mem_Ico, Finset.mem_singleton]; omega
  rw [this, Finset.sum_singleton]

theorem sum_unfold_first {lo hi : ℤ} (h : lo < hi) (f : ℤ → ℝ) : S lo hi f = f lo + S (lo + 1) hi f := by
  rw [sum_split (show lo ≤ lo + 1 by omega) (show lo + 1 ≤ hi by omega), sum_one]

theorem sum_shift (lo hi d : ℤ) (f : ℤ → ℝ) : S lo hi (fun k => f (k + d)) = S (lo + d) (hi + d) f := by
  unfold S
  rw [← Finset.map_add_right_Ico, Finset.sum_map]
  rfl

theorem sum_empty {lo hi : ℤ} (h : hi ≤ lo) (f : ℤ → ℝ) : S lo hi f = 0 := by
  unfold S; rw [Finset.Ico_eq_empty (not_lt.mpr h)]; simp

theorem sum_leq {lo hi : ℤ} (f g : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → f k ≤ g k) : S lo hi f ≤ S lo hi g :=
  Finset.sum_le_sum fun k hk => h k (Finset.mem_Ico.mp hk).1 (Finset.mem_Ico.mp hk).2

theorem sum_eq {lo hi : ℤ} (f g : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → f k = g k) : S lo hi f = S lo hi g :=
  Finset.sum_congr rfl fun k hk => h k (Finset.mem_Ico.mp hk).1 (Finset.mem_Ico.mp hk).2

theorem sum_swap (l1 h1 l2 h2 : ℤ) (f : ℤ → ℤ → ℝ) : S l1 h1 (fun i => S l2 h2 (f i)) = S l2 h2 (fun j => S l1 h1 (fun i => f i j)) :=
  Finset.sum_comm

theorem sum_linear (lo hi : ℤ) (a b : ℝ) (f g : ℤ → ℝ) : S lo hi (fun k => a * f k + b * g k) = a * S lo hi f + b * S lo hi g := by
  unfold S; rw [Finset.sum_add_distrib, Finset.mul_sum, Finset.mul_sum]

theorem sum_const {lo hi : ℤ} (h : lo ≤ hi) (c : ℝ) : S lo hi (fun _ => c) = (hi - lo) * c := by
  unfold S
  rw [Finset.sum_const, Int.card_Ico, nsmul_eq_mul]
  congr 1
  have : ((hi - lo).toNat : ℤ) = hi - lo := Int.toNat_of_nonneg (by omega)
  exact_mod_cast congrArg (fun z : ℤ => (z : ℝ)) this

theorem sum_abs (lo hi : ℤ) (f : ℤ → ℝ) : |S lo hi f| ≤ S lo hi (fun k => |f k|) := Finset.abs_sum_le_sum_abs _ _

/-- where the denominators are positive, some quotient is least -/
theorem least_ratio {n : ℤ} (hn : 1 ≤ n) (f v : ℤ → ℝ) (hv : ∀ k, 0 ≤ k → k < n → 0 < v k) :
    ∃ p, 0 ≤ p ∧ p < n ∧ ∀ j, 0 ≤ j → j < n → f p * v j ≤ f j * v p := by
  obtain ⟨p, hp, h⟩ := Finset.exists_min_image (Ico 0 n) (fun k => f k / v k) ⟨0, by simp; omega⟩
  have hp' := Finset.mem_Ico.mp hp
  refine ⟨p, hp'.1, hp'.2, fun j h0 h1 => ?_⟩
  have := h j (Finset.mem_Ico.mpr ⟨h0, h1⟩)
  rwa [div_le_div_iff₀ (hv p hp'.1 hp'.2) (hv j h0 h1)] at this

/-- a greatest and a least element exist among finitely many -/
theorem extreme {n : ℤ} (hn : 1 ≤ n) (f : ℤ → ℝ) : ∃ p, 0 ≤ p ∧ p < n ∧ ∀ j, 0 ≤ j → j < n → f p ≤ f j := by
  obtain ⟨p, hp, h⟩ := Finset.exists_min_image (Ico 0 n) f ⟨0, by simp; omega⟩
  exact ⟨p, (Finset.mem_Ico.mp hp).1, (Finset.mem_Ico.mp hp).2, fun j h0 h1 => h j (Finset.mem_Ico.mpr ⟨h0, h1⟩)⟩
