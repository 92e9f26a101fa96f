import Mathlib

/-!
What the contract of the fast-diagonalisation Poisson solver implies.

Contract (discharged on the real code, vf/spec_la.py): along every axis d the
matrix handed to the eigensolver is `A_d = c * op n_d neu` (c = 1/dx^2), and the
solution is `V D V⁻¹ R` with V the tensor product of the eigenvector matrices,
D = 1/(sum of the eigenvalues), 0 at the multi-index of the smallest
eigenvalues when Neumann.  Assumed contract of the eigensolver:
`A V = V diag(w)`, `V⁻¹ V = 1`, `V V⁻¹ = 1`.
-/

open Finset BigOperators

namespace FastDiag

/-- the one-dimensional second-difference operator (same text as vf/spec_la.operator) -/
noncomputable def op (n : ℕ) (neu : Bool) (i j : Fin n) : ℝ :=
  if i = j then (if neu = true ∧ (i.val = 0 ∨ i.val + 1 = n) then 1 else 2)
  else if i.val = j.val + 1 ∨ j.val = i.val + 1 then -1 else 0

theorem op_symm (n : ℕ) (neu : Bool) (i j : Fin n) : op n neu i j = op n neu j i := by
  unfold op
  by_cases h : i = j
  · subst h; rfl
  · have h' : ¬ j = i := fun e => h e.symm
    simp only [h, h', if_false]
    simp only [or_comm]

theorem op_off (n : ℕ) (neu : Bool) (i j : Fin n) (h : i ≠ j) : op n neu i j ≤ 0 := by
  unfold op
  simp only [h, if_false]
  split_ifs <;> norm_num

theorem op_nb (n : ℕ) (neu : Bool) (i j : Fin n) (h : j.val = i.val + 1) : op n neu i j = -1 := by
  unfold op
  have : i ≠ j := by intro e; rw [e] at h; omega
  simp [this, h]

theorem sum_prev (n : ℕ) (i : Fin n) :
    (∑ j : Fin n, (if i.val = j.val + 1 then (1 : ℝ) else 0)) = if 0 < i.val then 1 else 0 := by
  by_cases h : 0 < i.val
  · have hi := i.isLt
    rw [Finset.sum_eq_single (⟨i.val - 1, by omega⟩ : Fin n)]
    · have : i.val = (i.val - 1) + 1 := by omega
      simp [h, ← this]
    · intro b _ hb
      have : ¬ i.val = b.val + 1 := by
        intro e; apply hb; apply Fin.ext; simp; omega
      simp [this]
    · intro hh; exact absurd (mem_univ _) hh
  · rw [if_neg h]
    apply Finset.sum_eq_zero
    intro j _
    have : ¬ i.val = j.val + 1 := by omega
    simp [this]

theorem sum_next (n : ℕ) (i : Fin n) :
    (∑ j : Fin n, (if j.val = i.val + 1 then (1 : ℝ) else 0)) = if i.val + 1 < n then 1 else 0 := by
  by_cases h : i.val + 1 < n
  · rw [Finset.sum_eq_single (⟨i.val + 1, h⟩ : Fin n)]
    · simp [h]
    · intro b _ hb
      have : ¬ b.val = i.val + 1 := by
        intro e; apply hb; apply Fin.ext; simpa using e
      simp [this]
    · intro hh; exact absurd (mem_univ _) hh
  · rw [if_neg h]
    apply Finset.sum_eq_zero
    intro j _
    have := j.isLt
    have : ¬ j.val = i.val + 1 := by omega
    simp [this]

theorem row_sum (n : ℕ) (neu : Bool) (i : Fin n) :
    ∑ j, op n neu i j = (if neu = true ∧ (i.val = 0 ∨ i.val + 1 = n) then (1 : ℝ) else 2)
      - (if 0 < i.val then 1 else 0) - (if i.val + 1 < n then 1 else 0) := by
  have e : ∀ j : Fin n, op n neu i j =
      (if i = j then (if neu = true ∧ (i.val = 0 ∨ i.val + 1 = n) then (1 : ℝ) else 2) else 0)
      - (if i.val = j.val + 1 then (1 : ℝ) else 0) - (if j.val = i.val + 1 then (1 : ℝ) else 0) := by
    intro j
    unfold op
    by_cases h : i = j
    · subst h; simp
    · simp only [h, if_false]
      by_cases a : i.val = j.val + 1
      · have b : ¬ j.val = i.val + 1 := by omega
        rw [if_pos (Or.inl a), if_pos a, if_neg b]; norm_num
      · by_cases b : j.val = i.val + 1
        · rw [if_pos (Or.inr b), if_neg a, if_pos b]; norm_num
        · simp [a, b]
  rw [Finset.sum_congr rfl (fun j _ => e j), Finset.sum_sub_distrib, Finset.sum_sub_distrib, sum_prev, sum_next]
  simp

theorem row_neumann (n : ℕ) (hn : 2 ≤ n) (i : Fin n) : ∑ j, op n true i j = 0 := by
  have hi := i.isLt
  rw [row_sum]
  by_cases a : i.val = 0
  · have : i.val + 1 < n := by omega
    have h0 : ¬ 0 < i.val := by omega
    rw [if_pos ⟨rfl, Or.inl a⟩, if_neg h0, if_pos this]; norm_num
  · have h0 : 0 < i.val := by omega
    by_cases b : i.val + 1 = n
    · have : ¬ i.val + 1 < n := by omega
      rw [if_pos ⟨rfl, Or.inr b⟩, if_pos h0, if_neg this]; norm_num
    · have : i.val + 1 < n := by omega
      have hneg : ¬ (true = true ∧ (i.val = 0 ∨ i.val + 1 = n)) := by
        rintro ⟨_, h | h⟩ <;> contradiction
      rw [if_neg hneg, if_pos h0, if_pos this]; norm_num

theorem row_dirichlet_nonneg (n : ℕ) (i : Fin n) : 0 ≤ ∑ j, op n false i j := by
  rw [row_sum]
  have : ¬ (false = true ∧ (i.val = 0 ∨ i.val + 1 = n)) := by simp
  rw [if_neg this]
  split_ifs <;> norm_num

theorem row_dirichlet_pos (n : ℕ) (hn : 0 < n) : 0 < ∑ j, op n false ⟨0, hn⟩ j := by
  rw [row_sum]
  have : ¬ (false = true ∧ ((⟨0, hn⟩ : Fin n).val = 0 ∨ (⟨0, hn⟩ : Fin n).val + 1 = n)) := by simp
  rw [if_neg this]
  simp only [lt_irrefl, if_false]
  split_ifs <;> norm_num

/-- quadratic form of a symmetric matrix: row sums plus squared differences -/
theorem quad (n : ℕ) (M : Fin n → Fin n → ℝ) (hs : ∀ i j, M i j = M j i) (v : Fin n → ℝ) :
    2 * ∑ i, v i * ∑ j, M i j * v j =
      2 * ∑ i, (∑ j, M i j) * v i ^ 2 + ∑ i, ∑ j, (-M i j) * (v i - v j) ^ 2 := by
  have h1 : ∑ i, ∑ j, M i j * v j ^ 2 = ∑ i, ∑ j, M i j * v i ^ 2 := by
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun i _ => Finset.sum_congr rfl fun j _ => ?_
    rw [hs j i]
  have h2 : ∑ i, ∑ j, (-M i j) * (v i - v j) ^ 2 =
      2 * ∑ i, ∑ j, M i j * (v i * v j) - ∑ i, ∑ j, M i j * v i ^ 2 - ∑ i, ∑ j, M i j * v j ^ 2 := by
    rw [Finset.mul_sum, ← Finset.sum_sub_distrib, ← Finset.sum_sub_distrib]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [Finset.mul_sum, ← Finset.sum_sub_distrib, ← Finset.sum_sub_distrib]
    refine Finset.sum_congr rfl fun j _ => ?_
    ring
  have h3 : ∑ i, v i * ∑ j, M i j * v j = ∑ i, ∑ j, M i j * (v i * v j) := by
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun j _ => ?_
    ring
  have h4 : ∑ i, (∑ j, M i j) * v i ^ 2 = ∑ i, ∑ j, M i j * v i ^ 2 := by
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [Finset.sum_mul]
  rw [h2, h3, h4, h1]; ring

theorem sq_nonneg_part (n : ℕ) (neu : Bool) (v : Fin n → ℝ) (i j : Fin n) :
    0 ≤ (-op n neu i j) * (v i - v j) ^ 2 := by
  by_cases h : i = j
  · subst h; simp
  · have := op_off n neu i j h
    exact mul_nonneg (by linarith) (sq_nonneg _)

theorem row_nonneg (n : ℕ) (hn : 2 ≤ n) (neu : Bool) (i : Fin n) : 0 ≤ ∑ j, op n neu i j := by
  cases neu
  · exact row_dirichlet_nonneg n i
  · rw [row_neumann n hn i]

/-- the quadratic form is nonnegative -/
theorem quad_nonneg (n : ℕ) (hn : 2 ≤ n) (neu : Bool) (v : Fin n → ℝ) :
    0 ≤ ∑ i, v i * ∑ j, op n neu i j * v j := by
  have h := quad n (op n neu) (op_symm n neu) v
  have a : 0 ≤ ∑ i, (∑ j, op n neu i j) * v i ^ 2 :=
    Finset.sum_nonneg fun i _ => mul_nonneg (row_nonneg n hn neu i) (sq_nonneg _)
  have b : 0 ≤ ∑ i, ∑ j, (-op n neu i j) * (v i - v j) ^ 2 :=
    Finset.sum_nonneg fun i _ => Finset.sum_nonneg fun j _ => sq_nonneg_part n neu v i j
  linarith

/-- null vectors have equal neighbours, hence are constant -/
theorem null_const (n : ℕ) (hn : 2 ≤ n) (neu : Bool) (v : Fin n → ℝ)
    (h0 : ∀ i, ∑ j, op n neu i j * v j = 0) (i : Fin n) : v i = v ⟨0, by omega⟩ := by
  have h := quad n (op n neu) (op_symm n neu) v
  have z : ∑ i, v i * ∑ j, op n neu i j * v j = 0 :=
    Finset.sum_eq_zero fun i _ => by rw [h0 i, mul_zero]
  have a : 0 ≤ ∑ i, (∑ j, op n neu i j) * v i ^ 2 :=
    Finset.sum_nonneg fun i _ => mul_nonneg (row_nonneg n hn neu i) (sq_nonneg _)
  have b : 0 ≤ ∑ i, ∑ j, (-op n neu i j) * (v i - v j) ^ 2 :=
    Finset.sum_nonneg fun i _ => Finset.sum_nonneg fun j _ => sq_nonneg_part n neu v i j
  have b0 : ∑ i, ∑ j, (-op n neu i j) * (v i - v j) ^ 2 = 0 := by linarith
  have nb : ∀ i j : Fin n, j.val = i.val + 1 → v i = v j := by
    intro i j hij
    have e1 := (Finset.sum_eq_zero_iff_of_nonneg
      (fun i _ => Finset.sum_nonneg fun j _ => sq_nonneg_part n neu v i j)).1 b0 i (mem_univ _)
    have e2 := (Finset.sum_eq_zero_iff_of_nonneg (fun j _ => sq_nonneg_part n neu v i j)).1 e1 j (mem_univ _)
    rw [op_nb n neu i j hij] at e2
    have : (v i - v j) ^ 2 = 0 := by linarith
    have := pow_eq_zero_iff (two_ne_zero) |>.1 this
    linarith
  have key : ∀ k : ℕ, ∀ hk : k < n, v ⟨k, hk⟩ = v ⟨0, by omega⟩ := by
    intro k
    induction k with
    | zero => intro hk; rfl
    | succ m ih =>
      intro hk
      rw [← ih (by omega)]
      exact (nb ⟨m, by omega⟩ ⟨m + 1, hk⟩ rfl).symm
  exact key i.val i.isLt

/-- Dirichlet: the null space is trivial -/
theorem null_dirichlet (n : ℕ) (hn : 2 ≤ n) (v : Fin n → ℝ)
    (h0 : ∀ i, ∑ j, op n false i j * v j = 0) (i : Fin n) : v i = 0 := by
  have hc := null_const n hn false v h0
  have r := h0 ⟨0, by omega⟩
  have : ∑ j, op n false ⟨0, by omega⟩ j * v j = (∑ j, op n false ⟨0, by omega⟩ j) * v ⟨0, by omega⟩ := by
    rw [Finset.sum_mul]
    exact Finset.sum_congr rfl fun j _ => by rw [hc j]
  rw [this] at r
  have p := row_dirichlet_pos n (by omega)
  rcases mul_eq_zero.1 r with q | q
  · exact absurd q (ne_of_gt p)
  · rw [hc i, q]

/-- an eigensystem of `c * op`: what the eigensolver's contract provides -/
structure Eig (n : ℕ) (neu : Bool) (c : ℝ) where
  w : Fin n → ℝ
  V : Fin n → Fin n → ℝ
  W : Fin n → Fin n → ℝ
  eig : ∀ i k, ∑ j, c * op n neu i j * V j k = V i k * w k
  left : ∀ k l, ∑ i, W k i * V i l = if k = l then 1 else 0
  right : ∀ i j, ∑ k, V i k * W k j = if i = j then 1 else 0

variable {n : ℕ} {neu : Bool} {c : ℝ}

theorem Eig.col_ne (E : Eig n neu c) (k : Fin n) : ∃ i, E.V i k ≠ 0 := by
  by_contra hcon
  push Not at hcon
  have h := E.left k k
  have z : ∑ i, E.W k i * E.V i k = 0 := Finset.sum_eq_zero fun i _ => by rw [hcon i, mul_zero]
  rw [z] at h
  simp at h

theorem Eig.scaled (E : Eig n neu c) (i k : Fin n) :
    c * ∑ j, op n neu i j * E.V j k = E.V i k * E.w k := by
  rw [← E.eig i k, Finset.mul_sum]
  exact Finset.sum_congr rfl fun j _ => by ring

theorem Eig.nonneg (E : Eig n neu c) (hn : 2 ≤ n) (hc : 0 < c) (k : Fin n) : 0 ≤ E.w k := by
  have q := quad_nonneg n hn neu (fun j => E.V j k)
  have e : c * ∑ i, E.V i k * ∑ j, op n neu i j * E.V j k = E.w k * ∑ i, E.V i k ^ 2 := by
    rw [Finset.mul_sum, Finset.mul_sum]
    refine Finset.sum_congr rfl fun i _ => ?_
    have := E.scaled i k
    calc c * (E.V i k * ∑ j, op n neu i j * E.V j k)
        = E.V i k * (c * ∑ j, op n neu i j * E.V j k) := by ring
      _ = E.w k * E.V i k ^ 2 := by rw [this]; ring
  obtain ⟨i0, hi0⟩ := E.col_ne k
  have pos : 0 < ∑ i, E.V i k ^ 2 :=
    Finset.sum_pos' (fun i _ => sq_nonneg _) ⟨i0, mem_univ _, by positivity⟩
  by_contra hneg
  push Not at hneg
  have : E.w k * ∑ i, E.V i k ^ 2 < 0 := mul_neg_of_neg_of_pos hneg pos
  have : 0 ≤ c * ∑ i, E.V i k * ∑ j, op n neu i j * E.V j k := mul_nonneg hc.le q
  linarith

theorem Eig.null (E : Eig n neu c) (hc : 0 < c) (k : Fin n) (h : E.w k = 0) (i : Fin n) :
    ∑ j, op n neu i j * E.V j k = 0 := by
  have := E.scaled i k
  rw [h, mul_zero] at this
  rcases mul_eq_zero.1 this with q | q
  · exact absurd q (ne_of_gt hc)
  · exact q

theorem Eig.dirichlet_pos (E : Eig n false c) (hn : 2 ≤ n) (hc : 0 < c) (k : Fin n) : 0 < E.w k := by
  rcases lt_or_eq_of_le (E.nonneg hn hc k) with h | h
  · exact h
  · obtain ⟨i, hi⟩ := E.col_ne k
    exact absurd (null_dirichlet n hn _ (E.null hc k h.symm) i) hi

/-- Neumann: some eigenvalue is zero -/
theorem Eig.exists_null (E : Eig n true c) (hn : 2 ≤ n) : ∃ k, E.w k = 0 := by
  by_contra hcon
  push Not at hcon
  -- coefficients of the constant vector
  let a : Fin n → ℝ := fun k => ∑ j, E.W k j
  have rec1 : ∀ i, ∑ k, E.V i k * a k = 1 := by
    intro i
    have : ∑ k, E.V i k * a k = ∑ j, ∑ k, E.V i k * E.W k j := by
      rw [Finset.sum_comm]
      exact Finset.sum_congr rfl fun k _ => by rw [Finset.mul_sum]
    rw [this, Finset.sum_congr rfl (fun j _ => E.right i j)]
    simp
  have zero : ∀ i, ∑ k, E.V i k * (E.w k * a k) = 0 := by
    intro i
    have : ∑ k, E.V i k * (E.w k * a k) = ∑ j, c * op n true i j * ∑ k, E.V j k * a k := by
      calc ∑ k, E.V i k * (E.w k * a k) = ∑ k, (∑ j, c * op n true i j * E.V j k) * a k :=
            Finset.sum_congr rfl fun k _ => by rw [E.eig i k]; ring
        _ = ∑ k, ∑ j, c * op n true i j * E.V j k * a k :=
            Finset.sum_congr rfl fun k _ => by rw [Finset.sum_mul]
        _ = ∑ j, ∑ k, c * op n true i j * E.V j k * a k := Finset.sum_comm
        _ = _ := Finset.sum_congr rfl fun j _ => by
            rw [Finset.mul_sum]; exact Finset.sum_congr rfl fun k _ => by ring
    rw [this]
    simp only [rec1, mul_one]
    rw [← Finset.mul_sum, row_neumann n hn i, mul_zero]
  have coef : ∀ l, E.w l * a l = 0 := by
    intro l
    have : ∑ i, E.W l i * ∑ k, E.V i k * (E.w k * a k) = E.w l * a l := by
      calc ∑ i, E.W l i * ∑ k, E.V i k * (E.w k * a k)
          = ∑ i, ∑ k, E.W l i * E.V i k * (E.w k * a k) :=
            Finset.sum_congr rfl fun i _ => by
              rw [Finset.mul_sum]; exact Finset.sum_congr rfl fun k _ => by ring
        _ = ∑ k, ∑ i, E.W l i * E.V i k * (E.w k * a k) := Finset.sum_comm
        _ = ∑ k, (if l = k then 1 else 0) * (E.w k * a k) :=
            Finset.sum_congr rfl fun k _ => by rw [← Finset.sum_mul, E.left l k]
        _ = E.w l * a l := by simp
    rw [← this]
    exact Finset.sum_eq_zero fun i _ => by rw [zero i, mul_zero]
  have all0 : ∀ l, a l = 0 := fun l => by
    rcases mul_eq_zero.1 (coef l) with q | q
    · exact absurd q (hcon l)
    · exact q
  have := rec1 ⟨0, by omega⟩
  simp [all0] at this

/-- Neumann: the smallest eigenvalue is zero, simple, with a constant mode -/
theorem Eig.min_null (E : Eig n true c) (hn : 2 ≤ n) (hc : 0 < c) (k0 : Fin n)
    (hmin : ∀ k, E.w k0 ≤ E.w k) : E.w k0 = 0 := by
  obtain ⟨k, hk⟩ := E.exists_null hn
  have := hmin k
  rw [hk] at this
  exact le_antisymm this (E.nonneg hn hc k0)

theorem Eig.simple (E : Eig n true c) (hn : 2 ≤ n) (hc : 0 < c) (k l : Fin n)
    (hk : E.w k = 0) (hl : E.w l = 0) : k = l := by
  by_contra hne
  have ck := null_const n hn true _ (E.null hc k hk)
  have cl := null_const n hn true _ (E.null hc l hl)
  have e1 := E.left k k
  have e2 := E.left k l
  have e3 := E.left l l
  rw [Finset.sum_congr rfl (fun i _ => by rw [ck i])] at e1
  rw [Finset.sum_congr rfl (fun i _ => by rw [cl i])] at e2 e3
  rw [← Finset.sum_mul] at e1 e2 e3
  simp [hne] at e1 e2 e3
  rcases e2 with q | q
  · rw [q, zero_mul] at e1; exact zero_ne_one e1
  · rw [q, mul_zero] at e3; exact zero_ne_one e3

/-- the null mode projects on the mean: column times row of the inverse is 1/n -/
theorem Eig.projection (E : Eig n true c) (hn : 2 ≤ n) (hc : 0 < c) (k : Fin n) (hk : E.w k = 0)
    (i j : Fin n) : E.V i k * E.W k j = 1 / n := by
  have ck := null_const n hn true _ (E.null hc k hk)
  -- the row of the inverse is a null vector of the symmetric operator
  have rowEig : ∀ j, ∑ i, op n true j i * E.W k i = 0 := by
    intro j
    have h1 : ∀ l, ∑ j, (∑ i, E.W k i * (c * op n true i j)) * E.V j l = 0 := by
      intro l
      calc ∑ j, (∑ i, E.W k i * (c * op n true i j)) * E.V j l
          = ∑ j, ∑ i, E.W k i * (c * op n true i j) * E.V j l :=
            Finset.sum_congr rfl fun j _ => by rw [Finset.sum_mul]
        _ = ∑ i, ∑ j, E.W k i * (c * op n true i j) * E.V j l := Finset.sum_comm
        _ = ∑ i, E.W k i * ∑ j, c * op n true i j * E.V j l :=
            Finset.sum_congr rfl fun i _ => by
              rw [Finset.mul_sum]; exact Finset.sum_congr rfl fun j _ => by ring
        _ = ∑ i, E.W k i * E.V i l * E.w l :=
            Finset.sum_congr rfl fun i _ => by rw [E.eig i l]; ring
        _ = (if k = l then 1 else 0) * E.w l := by rw [← Finset.sum_mul, E.left k l]
        _ = 0 := by
            by_cases h : k = l
            · subst h; rw [hk, mul_zero]
            · simp [h]
    have h2 : ∑ i, E.W k i * (c * op n true i j) = 0 := by
      have e : ∑ l, (∑ j', (∑ i, E.W k i * (c * op n true i j')) * E.V j' l) * E.W l j
          = ∑ i, E.W k i * (c * op n true i j) := by
        calc ∑ l, (∑ j', (∑ i, E.W k i * (c * op n true i j')) * E.V j' l) * E.W l j
            = ∑ l, ∑ j', (∑ i, E.W k i * (c * op n true i j')) * E.V j' l * E.W l j :=
              Finset.sum_congr rfl fun l _ => by rw [Finset.sum_mul]
          _ = ∑ j', ∑ l, (∑ i, E.W k i * (c * op n true i j')) * E.V j' l * E.W l j := Finset.sum_comm
          _ = ∑ j', (∑ i, E.W k i * (c * op n true i j')) * (if j' = j then 1 else 0) :=
              Finset.sum_congr rfl fun j' _ => by
                rw [← E.right j' j, Finset.mul_sum]; exact Finset.sum_congr rfl fun l _ => by ring
          _ = _ := by simp
      rw [← e]
      exact Finset.sum_eq_zero fun l _ => by rw [h1 l, zero_mul]
    have h3 : ∑ i, E.W k i * (c * op n true i j) = c * ∑ i, op n true j i * E.W k i := by
      rw [Finset.mul_sum]
      refine Finset.sum_congr rfl fun i _ => ?_
      rw [op_symm n true i j]; ring
    rw [h3] at h2
    rcases mul_eq_zero.1 h2 with q | q
    · exact absurd q (ne_of_gt hc)
    · exact q
  have rk := null_const n hn true _ rowEig
  have e := E.left k k
  rw [Finset.sum_congr rfl (fun i _ => by rw [ck i, rk i])] at e
  simp at e
  have hn0 : (n : ℝ) ≠ 0 := by
    have : n ≠ 0 := by omega
    exact_mod_cast this
  rw [ck i, rk j]
  field_simp
  linarith [e]

/-- an operator on a grid with its eigensystem -/
structure Sys (ι : Type) [Fintype ι] [DecidableEq ι] where
  A : ι → ι → ℝ
  w : ι → ℝ
  V : ι → ι → ℝ
  W : ι → ι → ℝ
  eig : ∀ i k, ∑ j, A i j * V j k = V i k * w k
  left : ∀ k l, ∑ i, W k i * V i l = if k = l then 1 else 0
  right : ∀ i j, ∑ k, V i k * W k j = if i = j then 1 else 0

noncomputable def Eig.sys (E : Eig n neu c) : Sys (Fin n) where
  A i j := c * op n neu i j
  w := E.w
  V := E.V
  W := E.W
  eig := E.eig
  left := E.left
  right := E.right

theorem prod_delta {ι κ : Type} [DecidableEq ι] [DecidableEq κ] (a b : ι) (x y : κ) :
    (if a = b then (1 : ℝ) else 0) * (if x = y then 1 else 0) = if (a, x) = (b, y) then 1 else 0 := by
  by_cases h : a = b <;> by_cases g : x = y <;> simp [h, g]

/-- operators of two axes added up: A⊗1 + 1⊗B -/
noncomputable def tensor {ι κ : Type} [Fintype ι] [DecidableEq ι] [Fintype κ] [DecidableEq κ]
    (P : Sys ι) (Q : Sys κ) : Sys (ι × κ) where
  A i j := P.A i.1 j.1 * (if i.2 = j.2 then 1 else 0) + (if i.1 = j.1 then 1 else 0) * Q.A i.2 j.2
  w k := P.w k.1 + Q.w k.2
  V i k := P.V i.1 k.1 * Q.V i.2 k.2
  W k i := P.W k.1 i.1 * Q.W k.2 i.2
  eig := by
    rintro ⟨i, x⟩ ⟨k, l⟩
    rw [Fintype.sum_prod_type]
    have e : ∀ j : ι, ∑ y : κ, (P.A i j * (if x = y then 1 else 0) + (if i = j then 1 else 0) * Q.A x y) *
        (P.V j k * Q.V y l) = P.A i j * P.V j k * Q.V x l + (if i = j then P.V j k else 0) * (Q.V x l * Q.w l) := by
      intro j
      rw [← Q.eig x l, Finset.mul_sum]
      have : P.A i j * P.V j k * Q.V x l = ∑ y, P.A i j * P.V j k * ((if x = y then 1 else 0) * Q.V y l) := by
        rw [← Finset.mul_sum]; simp
      rw [this, ← Finset.sum_add_distrib]
      refine Finset.sum_congr rfl fun y _ => ?_
      by_cases h : i = j <;> by_cases g : x = y <;> simp only [h, g, if_true, if_false] <;> ring
    rw [Finset.sum_congr rfl (fun j _ => e j), Finset.sum_add_distrib, ← Finset.sum_mul, P.eig i k,
      ← Finset.sum_mul]
    simp
    ring
  left := by
    rintro ⟨k, l⟩ ⟨k', l'⟩
    rw [Fintype.sum_prod_type, ← prod_delta, ← P.left k k', ← Q.left l l', Finset.sum_mul]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [Finset.mul_sum]
    exact Finset.sum_congr rfl fun y _ => by ring
  right := by
    rintro ⟨i, x⟩ ⟨j, y⟩
    rw [Fintype.sum_prod_type, ← prod_delta, ← P.right i j, ← Q.right x y, Finset.sum_mul]
    refine Finset.sum_congr rfl fun k _ => ?_
    rw [Finset.mul_sum]
    exact Finset.sum_congr rfl fun l _ => by ring

/-- the spectral formula -/
noncomputable def sol {ι : Type} [Fintype ι] [DecidableEq ι] (P : Sys ι) (D R : ι → ℝ) (i : ι) : ℝ :=
  ∑ k, ∑ m, P.V i k * D k * P.W k m * R m

theorem apply_sol {ι : Type} [Fintype ι] [DecidableEq ι] (P : Sys ι) (D R : ι → ℝ) (i : ι) :
    ∑ j, P.A i j * sol P D R j = ∑ k, ∑ m, P.V i k * (P.w k * D k) * P.W k m * R m := by
  unfold sol
  calc ∑ j, P.A i j * ∑ k, ∑ m, P.V j k * D k * P.W k m * R m
      = ∑ j, ∑ k, P.A i j * P.V j k * ∑ m, D k * P.W k m * R m :=
        Finset.sum_congr rfl fun j _ => by
          rw [Finset.mul_sum]
          refine Finset.sum_congr rfl fun k _ => ?_
          rw [Finset.mul_sum, Finset.mul_sum]
          exact Finset.sum_congr rfl fun m _ => by ring
    _ = ∑ k, ∑ j, P.A i j * P.V j k * ∑ m, D k * P.W k m * R m := Finset.sum_comm
    _ = ∑ k, P.V i k * P.w k * ∑ m, D k * P.W k m * R m :=
        Finset.sum_congr rfl fun k _ => by rw [← Finset.sum_mul, P.eig i k]
    _ = _ := Finset.sum_congr rfl fun k _ => by
        rw [Finset.mul_sum]; exact Finset.sum_congr rfl fun m _ => by ring

theorem identity_sum {ι : Type} [Fintype ι] [DecidableEq ι] (P : Sys ι) (R : ι → ℝ) (i : ι) :
    ∑ k, ∑ m, P.V i k * P.W k m * R m = R i := by
  rw [Finset.sum_comm]
  have : ∀ m, ∑ k, P.V i k * P.W k m * R m = (if i = m then 1 else 0) * R m := fun m => by
    rw [← Finset.sum_mul, P.right i m]
  rw [Finset.sum_congr rfl (fun m _ => this m)]
  simp

/-- no null mode: the operator applied to the solution is the right-hand side -/
theorem exact_sol {ι : Type} [Fintype ι] [DecidableEq ι] (P : Sys ι) (hw : ∀ k, P.w k ≠ 0) (R : ι → ℝ) (i : ι) :
    ∑ j, P.A i j * sol P (fun k => 1 / P.w k) R j = R i := by
  rw [apply_sol, ← identity_sum P R i]
  refine Finset.sum_congr rfl fun k _ => Finset.sum_congr rfl fun m _ => ?_
  have := hw k
  field_simp

/-- a constant null mode: the operator applied to the solution is the right-hand
side minus its mean, and the solution has mean zero -/
theorem mean_sol {ι : Type} [Fintype ι] [DecidableEq ι] (P : Sys ι) (k0 : ι) (N : ℝ)
    (h0 : P.w k0 = 0) (hw : ∀ k, k ≠ k0 → P.w k ≠ 0) (hp : ∀ i j, P.V i k0 * P.W k0 j = 1 / N)
    (R : ι → ℝ) (i : ι) :
    ∑ j, P.A i j * sol P (fun k => if k = k0 then 0 else 1 / P.w k) R j = R i - (∑ m, R m) / N := by
  have split : ∀ k, ∑ m, P.V i k * (P.w k * (if k = k0 then 0 else 1 / P.w k)) * P.W k m * R m =
      ∑ m, P.V i k * P.W k m * R m - if k = k0 then ∑ m, P.V i k0 * P.W k0 m * R m else 0 := by
    intro k
    by_cases h : k = k0
    · subst h; simp
    · have := hw k h
      simp only [h, if_false, sub_zero]
      refine Finset.sum_congr rfl fun m _ => ?_
      field_simp
  rw [apply_sol, Finset.sum_congr rfl (fun k _ => split k), Finset.sum_sub_distrib, identity_sum]
  have : ∑ m, P.V i k0 * P.W k0 m * R m = (∑ m, R m) / N := by
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl fun m _ => by rw [hp i m]; ring
  simp [this]

theorem mean_zero {ι : Type} [Fintype ι] [DecidableEq ι] (P : Sys ι) (k0 : ι) (N : ℝ) (hN : N ≠ 0)
    (hp : ∀ i j, P.V i k0 * P.W k0 j = 1 / N) (R : ι → ℝ) :
    ∑ i, sol P (fun k => if k = k0 then 0 else 1 / P.w k) R i = 0 := by
  have col : ∀ k, k ≠ k0 → ∑ i, P.V i k = 0 := by
    intro k hk
    have l := P.left k0 k
    have hk' : ¬ k0 = k := fun e => hk e.symm
    simp only [hk', if_false] at l
    by_cases hne : Nonempty ι
    · obtain ⟨a⟩ := hne
      have e : ∀ i, P.V a k0 * P.W k0 i * P.V i k = (1 / N) * P.V i k := fun i => by rw [hp a i]
      have : P.V a k0 * ∑ i, P.W k0 i * P.V i k = (1 / N) * ∑ i, P.V i k := by
        rw [Finset.mul_sum, Finset.mul_sum]
        exact Finset.sum_congr rfl fun i _ => by rw [← e i]; ring
      rw [l, mul_zero] at this
      rcases mul_eq_zero.1 this.symm with q | q
      · exact absurd q (one_div_ne_zero hN)
      · exact q
    · have := not_nonempty_iff.1 hne
      simp
  unfold sol
  rw [Finset.sum_comm]
  refine Finset.sum_eq_zero fun k _ => ?_
  by_cases h : k = k0
  · subst h; simp
  · have : ∀ i, ∑ m, P.V i k * (if k = k0 then 0 else 1 / P.w k) * P.W k m * R m =
        P.V i k * ∑ m, (1 / P.w k) * P.W k m * R m := by
      intro i
      rw [Finset.mul_sum]
      exact Finset.sum_congr rfl fun m _ => by simp only [h, if_false]; ring
    rw [Finset.sum_congr rfl (fun i _ => this i), ← Finset.sum_mul, col k h, zero_mul]

/-- 2D, Neumann: the operator reproduces the right-hand side without its mean; the solution has mean zero -/
theorem neumann_2d {ny nx : ℕ} (hy : 2 ≤ ny) (hx : 2 ≤ nx) {c : ℝ} (hc : 0 < c)
    (Ey : Eig ny true c) (Ex : Eig nx true c) (ky : Fin ny) (kx : Fin nx)
    (my : ∀ k, Ey.w ky ≤ Ey.w k) (mx : ∀ k, Ex.w kx ≤ Ex.w k) (R : Fin ny × Fin nx → ℝ) (i : Fin ny × Fin nx) :
    let P := tensor Ey.sys Ex.sys
    let S := sol P (fun k => if k = (ky, kx) then 0 else 1 / P.w k) R
    (∑ j, P.A i j * S j = R i - (∑ m, R m) / (ny * nx)) ∧ ∑ j, S j = 0 := by
  have wy := Ey.min_null hy hc ky my
  have wx := Ex.min_null hx hc kx mx
  have hN : ((ny : ℝ) * nx) ≠ 0 := by
    have a : ny ≠ 0 := by omega
    have b : nx ≠ 0 := by omega
    exact mul_ne_zero (by exact_mod_cast a) (by exact_mod_cast b)
  have hp : ∀ i j, (tensor Ey.sys Ex.sys).V i (ky, kx) * (tensor Ey.sys Ex.sys).W (ky, kx) j =
      1 / ((ny : ℝ) * nx) := by
    intro i j
    have a := Ey.projection hy hc ky wy i.1 j.1
    have b := Ex.projection hx hc kx wx i.2 j.2
    calc (Ey.V i.1 ky * Ex.V i.2 kx) * (Ey.W ky j.1 * Ex.W kx j.2)
        = (Ey.V i.1 ky * Ey.W ky j.1) * (Ex.V i.2 kx * Ex.W kx j.2) := by ring
      _ = 1 / ((ny : ℝ) * nx) := by rw [a, b, one_div_mul_one_div]
  refine ⟨mean_sol _ (ky, kx) _ ?_ ?_ hp R i, mean_zero _ (ky, kx) _ hN hp R⟩
  · show Ey.w ky + Ex.w kx = 0
    rw [wy, wx, add_zero]
  · rintro ⟨k, l⟩ hne hz
    have h : Ey.w k + Ex.w l = 0 := hz
    have a := Ey.nonneg hy hc k
    have b := Ex.nonneg hx hc l
    have hk : Ey.w k = 0 := by linarith
    have hl : Ex.w l = 0 := by linarith
    exact hne (by rw [Ey.simple hy hc k ky hk wy, Ex.simple hx hc l kx hl wx])

/-- 3D, Neumann -/
theorem neumann_3d {nz ny nx : ℕ} (hz : 2 ≤ nz) (hy : 2 ≤ ny) (hx : 2 ≤ nx) {c : ℝ} (hc : 0 < c)
    (Ez : Eig nz true c) (Ey : Eig ny true c) (Ex : Eig nx true c) (kz : Fin nz) (ky : Fin ny) (kx : Fin nx)
    (mz : ∀ k, Ez.w kz ≤ Ez.w k) (my : ∀ k, Ey.w ky ≤ Ey.w k) (mx : ∀ k, Ex.w kx ≤ Ex.w k)
    (R : Fin nz × Fin ny × Fin nx → ℝ) (i : Fin nz × Fin ny × Fin nx) :
    let P := tensor Ez.sys (tensor Ey.sys Ex.sys)
    let S := sol P (fun k => if k = (kz, ky, kx) then 0 else 1 / P.w k) R
    (∑ j, P.A i j * S j = R i - (∑ m, R m) / (nz * (ny * nx))) ∧ ∑ j, S j = 0 := by
  have wz := Ez.min_null hz hc kz mz
  have wy := Ey.min_null hy hc ky my
  have wx := Ex.min_null hx hc kx mx
  have hN : ((nz : ℝ) * (ny * nx)) ≠ 0 := by
    have z : nz ≠ 0 := by omega
    have a : ny ≠ 0 := by omega
    have b : nx ≠ 0 := by omega
    exact mul_ne_zero (by exact_mod_cast z) (mul_ne_zero (by exact_mod_cast a) (by exact_mod_cast b))
  have hp : ∀ i j, (tensor Ez.sys (tensor Ey.sys Ex.sys)).V i (kz, ky, kx) *
      (tensor Ez.sys (tensor Ey.sys Ex.sys)).W (kz, ky, kx) j = 1 / ((nz : ℝ) * (ny * nx)) := by
    intro i j
    have z := Ez.projection hz hc kz wz i.1 j.1
    have a := Ey.projection hy hc ky wy i.2.1 j.2.1
    have b := Ex.projection hx hc kx wx i.2.2 j.2.2
    calc (Ez.V i.1 kz * (Ey.V i.2.1 ky * Ex.V i.2.2 kx)) * (Ez.W kz j.1 * (Ey.W ky j.2.1 * Ex.W kx j.2.2))
        = (Ez.V i.1 kz * Ez.W kz j.1) * ((Ey.V i.2.1 ky * Ey.W ky j.2.1) * (Ex.V i.2.2 kx * Ex.W kx j.2.2)) := by ring
      _ = 1 / ((nz : ℝ) * (ny * nx)) := by rw [z, a, b, one_div_mul_one_div, one_div_mul_one_div]
  refine ⟨mean_sol _ (kz, ky, kx) _ ?_ ?_ hp R i, mean_zero _ (kz, ky, kx) _ hN hp R⟩
  · show Ez.w kz + (Ey.w ky + Ex.w kx) = 0
    rw [wz, wy, wx]; norm_num
  · rintro ⟨q, k, l⟩ hne hzero
    have h : Ez.w q + (Ey.w k + Ex.w l) = 0 := hzero
    have z := Ez.nonneg hz hc q
    have a := Ey.nonneg hy hc k
    have b := Ex.nonneg hx hc l
    have hq : Ez.w q = 0 := by linarith
    have hk : Ey.w k = 0 := by linarith
    have hl : Ex.w l = 0 := by linarith
    exact hne (by rw [Ez.simple hz hc q kz hq wz, Ey.simple hy hc k ky hk wy, Ex.simple hx hc l kx hl wx])

/-- 2D, Dirichlet: the operator reproduces the right-hand side -/
theorem dirichlet_2d {ny nx : ℕ} (hy : 2 ≤ ny) (hx : 2 ≤ nx) {c : ℝ} (hc : 0 < c)
    (Ey : Eig ny false c) (Ex : Eig nx false c) (R : Fin ny × Fin nx → ℝ) (i : Fin ny × Fin nx) :
    let P := tensor Ey.sys Ex.sys
    ∑ j, P.A i j * sol P (fun k => 1 / P.w k) R j = R i := by
  refine exact_sol _ ?_ R i
  rintro ⟨k, l⟩ h
  have h : Ey.w k + Ex.w l = 0 := h
  have := Ey.dirichlet_pos hy hc k
  have := Ex.dirichlet_pos hx hc l
  linarith

/-- 3D, Dirichlet -/
theorem dirichlet_3d {nz ny nx : ℕ} (hz : 2 ≤ nz) (hy : 2 ≤ ny) (hx : 2 ≤ nx) {c : ℝ} (hc : 0 < c)
    (Ez : Eig nz false c) (Ey : Eig ny false c) (Ex : Eig nx false c)
    (R : Fin nz × Fin ny × Fin nx → ℝ) (i : Fin nz × Fin ny × Fin nx) :
    let P := tensor Ez.sys (tensor Ey.sys Ex.sys)
    ∑ j, P.A i j * sol P (fun k => 1 / P.w k) R j = R i := by
  refine exact_sol _ ?_ R i
  rintro ⟨q, k, l⟩ h
  have h : Ez.w q + (Ey.w k + Ex.w l) = 0 := h
  have := Ez.dirichlet_pos hz hc q
  have := Ey.dirichlet_pos hy hc k
  have := Ex.dirichlet_pos hx hc l
  linarith

end FastDiag
