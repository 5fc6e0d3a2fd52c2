/-
The finite-sum lemma used by C12: if every cell's equation balances its
accumulation with the fluxes from its neighbours, the rates of the boundaries
that touch it and the rates of the wells in it, and internal fluxes cancel
pairwise, then the accumulation of all cells is the sum of all rates.
A boundary touches at most one cell and carries no rate if it touches none; a
well lies in exactly one cell.
-/
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Group.Finset.Sigma
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Linarith

open Finset

theorem fluxes_cancel {C : Type*} [Fintype C] (F : C → C → ℝ) (h : ∀ c n, F c n = -F n c) :
    ∑ c, ∑ n, F c n = 0 := by
  have h1 : ∑ c, ∑ n, F c n = ∑ c, ∑ n, -F n c := by
    apply Finset.sum_congr rfl; intro c _
    apply Finset.sum_congr rfl; intro n _
    exact h c n
  have h2 : ∑ c, ∑ n, -F n c = -∑ c, ∑ n, F c n := by
    rw [Finset.sum_comm]; simp [Finset.sum_neg_distrib]
  linarith

theorem rates_once {C B : Type*} [Fintype C] [Fintype B] [DecidableEq C]
    (at_ : B → Option C) (rate : B → ℝ) (h0 : ∀ b, at_ b = none → rate b = 0) :
    ∑ c, ∑ b, (if at_ b = some c then rate b else 0) = ∑ b, rate b := by
  rw [Finset.sum_comm]
  apply Finset.sum_congr rfl
  intro b _
  cases hb : at_ b with
  | none => simp [h0 b hb]
  | some c => simp [Finset.sum_ite_eq]

theorem balance {C B W : Type*} [Fintype C] [Fintype B] [Fintype W] [DecidableEq C]
    (acc : C → ℝ) (F : C → C → ℝ) (bat : B → Option C) (brate : B → ℝ) (wat : W → C) (wrate : W → ℝ)
    (h0 : ∀ b, bat b = none → brate b = 0) (anti : ∀ c n, F c n = -F n c)
    (cell : ∀ c, acc c = ∑ n, F c n + ∑ b, (if bat b = some c then brate b else 0)
      + ∑ w, (if wat w = c then wrate w else 0)) :
    ∑ c, acc c = ∑ b, brate b + ∑ w, wrate w := by
  have hw : ∑ c, ∑ w, (if wat w = c then wrate w else 0) = ∑ w, wrate w := by
    rw [Finset.sum_comm]; simp
  have : ∑ c, acc c = ∑ c, ∑ n, F c n + ∑ c, ∑ b, (if bat b = some c then brate b else 0)
      + ∑ c, ∑ w, (if wat w = c then wrate w else 0) := by
    rw [← Finset.sum_add_distrib, ← Finset.sum_add_distrib]
    exact Finset.sum_congr rfl (fun c _ => cell c)
  rw [this, fluxes_cancel F anti, rates_once bat brate h0, hw, zero_add]
