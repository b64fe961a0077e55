import Mathlib.Algebra.BigOperators.Finsupp.Basic
import Mathlib.LinearAlgebra.Multilinear.Basic
import Mathlib.Tactic.Ring
/-! Lemmas over the join contracts (C05). `w l r` is how often the pair (l, r) yields a fixed result document;
    `J w a b` is `joinSum` of contracts/dbsp_join.gvc for that result document. -/
open Finsupp

noncomputable def J {K : Type} (w : K → K → ℤ) (a b : K →₀ ℤ) : ℤ :=
  a.sum fun l m => b.sum fun r n => m * n * w l r

theorem J_add_left {K : Type} (w : K → K → ℤ) (a a' b : K →₀ ℤ) : J w (a + a') b = J w a b + J w a' b := by
  classical
  unfold J
  rw [Finsupp.sum_add_index']
  · intro l; simp
  · intro l m m'; rw [← Finsupp.sum_add]; congr; ext r n; ring

theorem J_add_right {K : Type} (w : K → K → ℤ) (a b b' : K →₀ ℤ) : J w a (b + b') = J w a b + J w a b' := by
  classical
  unfold J
  rw [← Finsupp.sum_add]
  congr; ext l m
  rw [Finsupp.sum_add_index']
  · intro r; simp
  · intro r n n'; ring

theorem J_zero_left {K : Type} (w : K → K → ℤ) (b : K →₀ ℤ) : J w 0 b = 0 := by simp [J]

/-- one step: the three terms of the bilinear expansion are exactly the change of the snapshot join -/
theorem incremental_binary {K : Type} (w : K → K → ℤ) (L dL R dR : K →₀ ℤ) :
    J w L R + (J w dL dR + J w L dR + J w dL R) = J w (L + dL) (R + dR) := by
  simp only [J_add_left, J_add_right]; ring

/-- every history: the accumulated output equals the snapshot join of the accumulated inputs -/
theorem history_binary {K : Type} (w : K → K → ℤ) (dL dR : ℕ → K →₀ ℤ) (n : ℕ) :
    (∑ t ∈ Finset.range n,
      (J w (dL t) (dR t) + J w (∑ s ∈ Finset.range t, dL s) (dR t) + J w (dL t) (∑ s ∈ Finset.range t, dR s)))
    = J w (∑ s ∈ Finset.range n, dL s) (∑ s ∈ Finset.range n, dR s) := by
  induction n with
  | zero => simp [J]
  | succ n ih => rw [Finset.sum_range_succ, ih, incremental_binary, Finset.sum_range_succ, Finset.sum_range_succ]

/-- n-way: the sum over all choices of previous state or change is the join of the sums, for any multilinear join -/
theorem incremental_nary {n : ℕ} {M : Type} [AddCommGroup M] (f : MultilinearMap ℤ (fun _ : Fin n => M) ℤ)
    (prev delta : Fin n → M) :
    f (delta + prev) = ∑ s : Finset (Fin n), f (s.piecewise delta prev) :=
  f.map_add_univ delta prev
