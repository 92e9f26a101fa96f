import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Group.Finset.Sigma
import Mathlib.Tactic.Ring
import Mathlib.Data.Real.Basic

open Finset

/-- cells: the grid; marks: the markers; win i: the support window of marker i;
w c i: weight of marker i at cell c -/
theorem adjoint {C M : Type} [DecidableEq C] (cells : Finset C) (marks : Finset M) (win : M → Finset C)
    (hw : ∀ i ∈ marks, win i ⊆ cells) (u : C → ℝ) (f : M → ℝ) (w : C → M → ℝ) (vol : ℝ) :
    ∑ i ∈ marks, f i * ((∑ c ∈ win i, u c * w c i) * vol)
      = vol * ∑ c ∈ cells, u c * ∑ i ∈ marks, (if c ∈ win i then f i * w c i else 0) := by
  have h : ∀ c ∈ cells, u c * ∑ i ∈ marks, (if c ∈ win i then f i * w c i else 0)
      = ∑ i ∈ marks, (if c ∈ win i then u c * (f i * w c i) else 0) := by
    intro c _
    rw [mul_sum]
    apply sum_congr rfl
    intro i _
    split_ifs <;> simp
  rw [sum_congr rfl h, Finset.sum_comm, mul_sum]
  apply sum_congr rfl
  intro i hi
  rw [← sum_filter]
  have hf : cells.filter (fun c => c ∈ win i) = win i := by
    ext c
    simp only [mem_filter]
    exact ⟨fun h => h.2, fun h => ⟨hw i hi h, h⟩⟩
  rw [hf, sum_mul, mul_sum, mul_sum]
  apply sum_congr rfl
  intro c _
  ring

/-- weights that add up to 1 / vol spread every quantity conservatively -/
theorem conservation {C M : Type} [DecidableEq C] (cells : Finset C) (marks : Finset M) (win : M → Finset C)
    (hw : ∀ i ∈ marks, win i ⊆ cells) (f : M → ℝ) (w : C → M → ℝ) (vol : ℝ)
    (h1 : ∀ i ∈ marks, (∑ c ∈ win i, w c i) * vol = 1) :
    vol * ∑ c ∈ cells, ∑ i ∈ marks, (if c ∈ win i then f i * w c i else 0) = ∑ i ∈ marks, f i := by
  have h := adjoint cells marks win hw (fun _ => 1) f w vol
  simp only [one_mul] at h
  rw [← h]
  apply sum_congr rfl
  intro i hi
  rw [h1 i hi, mul_one]
