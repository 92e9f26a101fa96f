import Mathlib

/-!
What the contract of Brinkmann penalisation implies: pointwise
`new = (f + lam * chi * p) / (1 + lam * chi)` (discharged on the real code).
-/

open Filter Topology

namespace Brinkmann

/-- same closed form as vf/spec_grid._brink -/
noncomputable def new (lam chi f p : ℝ) : ℝ := (f + lam * chi * p) / (1 + lam * chi)

theorem blend (lam chi f p : ℝ) (hl : 0 < lam) (h0 : 0 ≤ chi) :
    new lam chi f p = f + (lam * chi / (1 + lam * chi)) * (p - f) := by
  have : 1 + lam * chi ≠ 0 := by positivity
  unfold new; field_simp; ring

theorem weight_in_unit (lam chi : ℝ) (hl : 0 < lam) (h0 : 0 ≤ chi) :
    0 ≤ lam * chi / (1 + lam * chi) ∧ lam * chi / (1 + lam * chi) < 1 := by
  have h : 0 ≤ lam * chi := by positivity
  refine ⟨by positivity, ?_⟩
  rw [div_lt_one (by linarith)]; linarith

theorem distance (lam chi f p : ℝ) (hl : 0 < lam) (h0 : 0 ≤ chi) :
    |new lam chi f p - p| = |f - p| / (1 + lam * chi) := by
  have h : 0 < 1 + lam * chi := by positivity
  have e : new lam chi f p - p = (f - p) / (1 + lam * chi) := by
    unfold new; field_simp; ring
  rw [e, abs_div, abs_of_pos h]

/-- where the body is present the penalised value tends to the penalty value -/
theorem limit (chi f p : ℝ) (hc : 0 < chi) : Tendsto (fun lam => new lam chi f p) atTop (𝓝 p) := by
  have h1 : Tendsto (fun lam : ℝ => 1 + lam * chi) atTop atTop :=
    tendsto_atTop_add_const_left _ _ (tendsto_id.atTop_mul_const hc)
  have h2 : Tendsto (fun lam : ℝ => (f - p) / (1 + lam * chi)) atTop (𝓝 0) := h1.const_div_atTop _
  have h3 : Tendsto (fun lam : ℝ => p + (f - p) / (1 + lam * chi)) atTop (𝓝 (p + 0)) := h2.const_add p
  rw [add_zero] at h3
  refine h3.congr' ?_
  filter_upwards [eventually_gt_atTop 0] with lam hl
  have h : 1 + lam * chi ≠ 0 := by positivity
  unfold new; field_simp; ring

/-- a larger factor brings it closer -/
theorem monotone_in_factor (l1 l2 chi f p : ℝ) (h1 : 0 < l1) (h : l1 ≤ l2) (hc : 0 ≤ chi) :
    |new l2 chi f p - p| ≤ |new l1 chi f p - p| := by
  rw [distance l2 chi f p (by linarith) hc, distance l1 chi f p h1 hc]
  apply div_le_div_of_nonneg_left (abs_nonneg _) (by positivity)
  have := mul_le_mul_of_nonneg_right h hc
  linarith

end Brinkmann
