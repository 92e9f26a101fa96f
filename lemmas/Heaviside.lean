import Mathlib

/-!
What the contract of the sine-smoothed Heaviside function implies; pointwise
the characteristic function is `H b s` (discharged on the real code).
-/

open Real

namespace Heaviside

/-- same closed form as vf/spec_grid._charf -/
noncomputable def H (b s : ℝ) : ℝ :=
  if s > b then 1 else if s < -b then 0 else (1 + s / b + sin (π * s / b) / π) / 2

noncomputable def g (x : ℝ) : ℝ := (1 + x + sin (π * x) / π) / 2

theorem g_monotone : Monotone g := by
  have hd : ∀ x, HasDerivAt g ((1 + cos (π * x)) / 2) x := by
    intro x
    have h1 : HasDerivAt (fun x : ℝ => π * x) π x := by
      simpa using (hasDerivAt_id x).const_mul π
    have h2 : HasDerivAt (fun x : ℝ => sin (π * x) / π) (cos (π * x) * π / π) x :=
      ((Real.hasDerivAt_sin (π * x)).comp x h1).div_const π
    have h3 : HasDerivAt (fun x : ℝ => (1 + x + sin (π * x) / π) / 2) ((1 + cos (π * x) * π / π) / 2) x := by
      have := ((hasDerivAt_id x).const_add 1).add h2
      exact this.div_const 2
    have e : (1 + cos (π * x) * π / π) / 2 = (1 + cos (π * x)) / 2 := by
      rw [mul_div_assoc, div_self pi_ne_zero, mul_one]
    rw [e] at h3
    exact h3
  apply monotone_of_deriv_nonneg (fun x => (hd x).differentiableAt)
  intro x
  rw [(hd x).deriv]
  have := neg_one_le_cos (π * x)
  linarith

theorem g_one : g 1 = 1 := by unfold g; simp
theorem g_neg_one : g (-1) = 0 := by unfold g; simp

theorem H_eq (b s : ℝ) (_hb : 0 < b) (h1 : s ≤ b) (h2 : -b ≤ s) : H b s = g (s / b) := by
  unfold H g
  rw [if_neg (not_lt.2 h1), if_neg (not_lt.2 h2), mul_div_assoc]

theorem clamp (b s : ℝ) (hb : 0 < b) : H b s = g (max (-1) (min 1 (s / b))) := by
  rcases lt_trichotomy s b with h | h | h
  · rcases lt_or_ge s (-b) with k | k
    · have e : s / b ≤ -1 := by rw [div_le_iff₀ hb]; linarith
      rw [min_eq_right (by linarith), max_eq_left e, g_neg_one]
      unfold H; rw [if_neg (by linarith), if_pos k]
    · have e1 : s / b ≤ 1 := by rw [div_le_one hb]; linarith
      have e2 : -1 ≤ s / b := by rw [le_div_iff₀ hb]; linarith
      rw [min_eq_right e1, max_eq_right e2, H_eq b s hb h.le k]
  · subst h
    rw [div_self hb.ne', min_self, max_eq_right (by norm_num), H_eq s s hb le_rfl (by linarith), div_self hb.ne']
  · have e : 1 ≤ s / b := by rw [one_le_div hb]; linarith
    rw [min_eq_left e, max_eq_right (by norm_num), g_one]
    unfold H; rw [if_pos h]

theorem monotone (b : ℝ) (hb : 0 < b) : Monotone (H b) := by
  intro s t h
  rw [clamp b s hb, clamp b t hb]
  apply g_monotone
  apply max_le_max le_rfl
  apply min_le_min le_rfl
  exact div_le_div_of_nonneg_right h hb.le

theorem range (b s : ℝ) (hb : 0 < b) : 0 ≤ H b s ∧ H b s ≤ 1 := by
  rw [clamp b s hb]
  constructor
  · calc (0 : ℝ) = g (-1) := g_neg_one.symm
      _ ≤ _ := g_monotone (le_max_left _ _)
  · calc g (max (-1) (min 1 (s / b))) ≤ g 1 := g_monotone (max_le (by norm_num) (min_le_left _ _))
      _ = 1 := g_one

theorem continuous (b : ℝ) (hb : 0 < b) : Continuous (H b) := by
  have : H b = fun s => g (max (-1) (min 1 (s / b))) := funext fun s => clamp b s hb
  rw [this]
  unfold g
  fun_prop

theorem symmetric (b s : ℝ) (hb : 0 < b) : H b s + H b (-s) = 1 := by
  have gs : ∀ x, g x + g (-x) = 1 := by
    intro x; unfold g
    have : sin (π * -x) = - sin (π * x) := by rw [mul_neg, sin_neg]
    rw [this]; ring
  rw [clamp b s hb, clamp b (-s) hb]
  have e : max (-1) (min 1 (-s / b)) = - max (-1) (min 1 (s / b)) := by
    rw [neg_div]
    rcases le_total (s / b) 1 with h | h <;> rcases le_total (s / b) (-1) with k | k <;>
      simp only [max_def, min_def] <;> split_ifs <;> linarith
  rw [e]; exact gs _

theorem half (b : ℝ) (hb : 0 < b) : H b 0 = 1 / 2 := by
  have := symmetric b 0 hb
  rw [neg_zero] at this; linarith

end Heaviside
