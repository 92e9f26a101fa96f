import Mathlib

/-!
What the conservation-form contracts imply for totals.

Contract (discharged on the real code, vf/identities.py diffusion_form,
diffusion_step_form, advection_form): inside the grid the change of a cell is
the sum over the axes of the flux through its upper face minus the flux through
its lower face, one flux per face; elsewhere the change is zero.  Cells of the
updated region are numbered 0 … n-1 along each axis, face k lies below cell k.
The flux through the outermost faces vanishes when the field vanishes in the
cells those faces read (`diffusion_face_zero`, `eno_face_zero`).
-/

open Finset BigOperators

namespace Telescoping

theorem line (F : ℕ → ℝ) (n : ℕ) : ∑ k ∈ range n, (F (k + 1) - F k) = F n - F 0 :=
  Finset.sum_range_sub F n

/-- planar totals: only the fluxes through the outer faces matter -/
theorem plane (Fx Fy : ℕ → ℕ → ℝ) (m n : ℕ) :
    ∑ j ∈ range m, ∑ k ∈ range n, ((Fx j (k + 1) - Fx j k) + (Fy (j + 1) k - Fy j k))
      = ∑ j ∈ range m, (Fx j n - Fx j 0) + ∑ k ∈ range n, (Fy m k - Fy 0 k) := by
  have h1 : ∀ j, ∑ k ∈ range n, ((Fx j (k + 1) - Fx j k) + (Fy (j + 1) k - Fy j k))
      = (Fx j n - Fx j 0) + ∑ k ∈ range n, (Fy (j + 1) k - Fy j k) := by
    intro j
    rw [Finset.sum_add_distrib, line (Fx j) n]
  simp_rw [h1]
  rw [Finset.sum_add_distrib, Finset.sum_comm]
  congr 1
  exact Finset.sum_congr rfl fun k _ => line (fun j => Fy j k) m

theorem space (Fx Fy Fz : ℕ → ℕ → ℕ → ℝ) (l m n : ℕ) :
    ∑ i ∈ range l, ∑ j ∈ range m, ∑ k ∈ range n,
      ((Fx i j (k + 1) - Fx i j k) + (Fy i (j + 1) k - Fy i j k) + (Fz (i + 1) j k - Fz i j k))
      = ∑ i ∈ range l, ∑ j ∈ range m, (Fx i j n - Fx i j 0)
        + ∑ i ∈ range l, ∑ k ∈ range n, (Fy i m k - Fy i 0 k)
        + ∑ j ∈ range m, ∑ k ∈ range n, (Fz l j k - Fz 0 j k) := by
  have h1 : ∀ i, ∑ j ∈ range m, ∑ k ∈ range n,
      ((Fx i j (k + 1) - Fx i j k) + (Fy i (j + 1) k - Fy i j k) + (Fz (i + 1) j k - Fz i j k))
      = (∑ j ∈ range m, (Fx i j n - Fx i j 0) + ∑ k ∈ range n, (Fy i m k - Fy i 0 k))
        + ∑ j ∈ range m, ∑ k ∈ range n, (Fz (i + 1) j k - Fz i j k) := by
    intro i
    rw [← plane (Fx i) (Fy i) m n, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [← Finset.sum_add_distrib]
  simp_rw [h1]
  rw [Finset.sum_add_distrib, Finset.sum_add_distrib]
  congr 1
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [Finset.sum_comm]
  exact Finset.sum_congr rfl fun k _ => line (fun i => Fz i j k) l

/-- conservation of the total in the plane when nothing crosses the outer faces -/
theorem conserved_plane (Fx Fy : ℕ → ℕ → ℝ) (m n : ℕ) (old new : ℕ → ℕ → ℝ)
    (step : ∀ j < m, ∀ k < n, new j k = old j k + ((Fx j (k + 1) - Fx j k) + (Fy (j + 1) k - Fy j k)))
    (hx : ∀ j < m, Fx j 0 = 0 ∧ Fx j n = 0) (hy : ∀ k < n, Fy 0 k = 0 ∧ Fy m k = 0) :
    ∑ j ∈ range m, ∑ k ∈ range n, new j k = ∑ j ∈ range m, ∑ k ∈ range n, old j k := by
  have h : ∑ j ∈ range m, ∑ k ∈ range n, new j k
      = ∑ j ∈ range m, ∑ k ∈ range n, old j k
        + ∑ j ∈ range m, ∑ k ∈ range n, ((Fx j (k + 1) - Fx j k) + (Fy (j + 1) k - Fy j k)) := by
    rw [← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun j hj => ?_
    rw [← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl fun k hk => step j (mem_range.1 hj) k (mem_range.1 hk)
  rw [h, plane]
  have a : ∑ j ∈ range m, (Fx j n - Fx j 0) = 0 :=
    Finset.sum_eq_zero fun j hj => by
      rw [(hx j (mem_range.1 hj)).1, (hx j (mem_range.1 hj)).2, sub_zero]
  have b : ∑ k ∈ range n, (Fy m k - Fy 0 k) = 0 :=
    Finset.sum_eq_zero fun k hk => by
      rw [(hy k (mem_range.1 hk)).1, (hy k (mem_range.1 hk)).2, sub_zero]
  rw [a, b]; ring

theorem conserved_space (Fx Fy Fz : ℕ → ℕ → ℕ → ℝ) (l m n : ℕ) (old new : ℕ → ℕ → ℕ → ℝ)
    (step : ∀ i < l, ∀ j < m, ∀ k < n, new i j k = old i j k +
      ((Fx i j (k + 1) - Fx i j k) + (Fy i (j + 1) k - Fy i j k) + (Fz (i + 1) j k - Fz i j k)))
    (hx : ∀ i < l, ∀ j < m, Fx i j 0 = 0 ∧ Fx i j n = 0)
    (hy : ∀ i < l, ∀ k < n, Fy i 0 k = 0 ∧ Fy i m k = 0)
    (hz : ∀ j < m, ∀ k < n, Fz 0 j k = 0 ∧ Fz l j k = 0) :
    ∑ i ∈ range l, ∑ j ∈ range m, ∑ k ∈ range n, new i j k
      = ∑ i ∈ range l, ∑ j ∈ range m, ∑ k ∈ range n, old i j k := by
  have h : ∑ i ∈ range l, ∑ j ∈ range m, ∑ k ∈ range n, new i j k
      = ∑ i ∈ range l, ∑ j ∈ range m, ∑ k ∈ range n, old i j k
        + ∑ i ∈ range l, ∑ j ∈ range m, ∑ k ∈ range n,
          ((Fx i j (k + 1) - Fx i j k) + (Fy i (j + 1) k - Fy i j k) + (Fz (i + 1) j k - Fz i j k)) := by
    rw [← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun i hi => ?_
    rw [← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun j hj => ?_
    rw [← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl fun k hk => step i (mem_range.1 hi) j (mem_range.1 hj) k (mem_range.1 hk)
  rw [h, space]
  have a : ∑ i ∈ range l, ∑ j ∈ range m, (Fx i j n - Fx i j 0) = 0 :=
    Finset.sum_eq_zero fun i hi => Finset.sum_eq_zero fun j hj => by
      have q := hx i (mem_range.1 hi) j (mem_range.1 hj)
      rw [q.1, q.2, sub_zero]
  have b : ∑ i ∈ range l, ∑ k ∈ range n, (Fy i m k - Fy i 0 k) = 0 :=
    Finset.sum_eq_zero fun i hi => Finset.sum_eq_zero fun k hk => by
      have q := hy i (mem_range.1 hi) k (mem_range.1 hk)
      rw [q.1, q.2, sub_zero]
  have c : ∑ j ∈ range m, ∑ k ∈ range n, (Fz l j k - Fz 0 j k) = 0 :=
    Finset.sum_eq_zero fun j hj => Finset.sum_eq_zero fun k hk => by
      have q := hz j (mem_range.1 hj) k (mem_range.1 hk)
      rw [q.1, q.2, sub_zero]
  rw [a, b, c]; ring

theorem diffusion_face_zero (p g0 g1 : ℝ) (h0 : g0 = 0) (h1 : g1 = 0) : p * (g1 - g0) = 0 := by
  rw [h0, h1]; ring

theorem eno_face_zero (k v0 v1 m1 z0 z1 z2 : ℝ) (w : ℤ → ℝ) (hm : m1 = 0) (h0 : z0 = 0) (h1 : z1 = 0) (h2 : z2 = 0) :
    k * (if v0 + v1 > 0 then z1 * w 1 / 3 + z0 * w 0 * 5 / 6 - m1 * w (-1) / 6
         else z0 * w 0 / 3 + z1 * w 1 * 5 / 6 - z2 * w 2 / 6) = 0 := by
  rw [hm, h0, h1, h2]; split_ifs <;> ring

end Telescoping
