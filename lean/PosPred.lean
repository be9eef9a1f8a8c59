import Pos1
import Posp
import Pred1
import Predp

open Finset Ins

/-! The predictions in the terms of the properties: the divisors are positive. -/
namespace Car1
variable (w s2 : ℝ) (t e : ℕ → ℝ) (T : ℝ) (ip : ℕ)
open Real

theorem vT_pos (hw : 0 < w) (hs : 0 < s2) (ht : StrictMono t) (he : ∀ c, e c ≠ 0) (h1 : ∀ j, j < ip → t j ≤ T) : 0 < vT w s2 t e T ip := by
  have hq : 0 < s2 / (2 * w) := by positivity
  cases ip with
  | zero => exact hq
  | succ c =>
    have hp := pos w s2 t e hw hs ht c
    have hT := h1 c (Nat.lt_succ_self c)
    have hr : exp (-w * (T - t c)) ≤ 1 := by
      rw [exp_le_one_iff]; nlinarith
    have hr0 := exp_pos (-w * (T - t c))
    have hee := mul_self_pos.mpr (he c)
    simp only [vT]
    generalize exp (-w * (T - t c)) = r at *
    generalize v w s2 t e c = V at *
    have hV0 : 0 < V := by linarith
    have h2 : 1 - (V - e c * e c) / V = e c * e c / V := by field_simp; ring
    rw [h2]
    have h3 : 0 < r * r * (V - e c * e c) * (e c * e c / V) := by
      have : 0 < V - e c * e c := by linarith
      positivity
    have h4 : 0 ≤ s2 / (2 * w) * (1 - r * r) := mul_nonneg hq.le (by nlinarith)
    linarith

theorem cv_ge (hw : 0 < w) (hs : 0 < s2) (ht : StrictMono t) (he : ∀ c, e c ≠ 0) (h2 : T ≤ t ip) (j : ℕ) :
    e (ip + j) * e (ip + j) ≤ cv w s2 t e T ip j := by
  have hq : 0 < s2 / (2 * w) := by positivity
  induction j with
  | zero =>
    have hr : exp (-2 * w * (t ip - T)) ≤ 1 := by
      rw [exp_le_one_iff]; nlinarith
    simp only [cv, add_zero]
    have : 0 ≤ s2 / (2 * w) * (1 - exp (-2 * w * (t ip - T))) := mul_nonneg hq.le (by linarith)
    linarith
  | succ j ih =>
    have h1 : t (ip + j) < t (ip + (j + 1)) := ht (by omega)
    have hr : exp (-w * (t (ip + (j+1)) - t (ip + j))) < 1 := by
      rw [exp_lt_one_iff]; nlinarith
    have hr0 := exp_pos (-w * (t (ip + (j+1)) - t (ip + j)))
    have hee := mul_self_pos.mpr (he (ip + j))
    simp only [cv]
    generalize exp (-w * (t (ip + (j+1)) - t (ip + j))) = r at *
    generalize cv w s2 t e T ip j = V at *
    have hV0 : 0 < V := by linarith
    have h2 : 1 - (V - e (ip + j) * e (ip + j)) / V = e (ip + j) * e (ip + j) / V := by field_simp; ring
    rw [h2]
    have h3 : 0 ≤ r * r * (V - e (ip + j) * e (ip + j)) * (e (ip + j) * e (ip + j) / V) := by
      have : 0 ≤ V - e (ip + j) * e (ip + j) := by linarith
      positivity
    have h4 : 0 ≤ s2 / (2 * w) * (1 - r * r) := mul_nonneg hq.le (by nlinarith)
    linarith

/-- F03 in the terms of the property: positive rate and noise variance, increasing times, observations with an error. -/
theorem predict (hw : 0 < w) (hs : 0 < s2) (ht : StrictMono t) (he : ∀ c, e c ≠ 0) (r : ℕ)
    (h1 : ∀ j, j < ip → t j ≤ T) (h2 : T ≤ t ip) (y : ℕ → ℝ) (prec num : ℝ)
    (hprec : prec = 1 / vT w s2 t e T ip + ∑ j ∈ range r, cs w s2 t e T ip j * cs w s2 t e T ip j / cv w s2 t e T ip j)
    (hnum : num = mT w s2 t e T y ip / vT w s2 t e T ip
      + ∑ j ∈ range r, cs w s2 t e T ip j * (y (ip + j) - cc w s2 t e T ip y j) / cv w s2 t e T ip j)
    (C : ℕ → ℕ → ℝ) (hC : C = S w s2 (ins ip t T) (ins ip e 0)) :
    (∃ g : ℕ → ℝ, g ip = 0 ∧ ∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) ∧
    ∀ g : ℕ → ℝ, g ip = 0 → (∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) →
      num / prec = ∑ l ∈ range (ip + 1 + r), g l * ins ip y 0 l ∧
      1 / prec = C ip ip - ∑ l ∈ range (ip + 1 + r), g l * C l ip :=
  predict_is_conditioning w s2 t e T ip r ht.monotone h1 h2 y
    (fun c _ => lt_of_le_of_lt (mul_self_nonneg _) (pos w s2 t e hw hs ht c))
    (vT_pos w s2 t e T ip hw hs ht he h1)
    (fun j _ => lt_of_lt_of_le (mul_self_pos.mpr (he _)) (cv_ge w s2 t e T ip hw hs ht he h2 j))
    prec num hprec hnum C hC

end Car1

namespace Acov
variable {p : ℕ} {om : Fin p → ℂ}
open ComplexConjugate

/-- F04 in the terms of the property: distinct roots with negative real parts, closed under conjugation; the times in order,
observations with an error; the value at T not already known (a predicted variance above zero). -/
theorem predict (perm : Fin p ≃ Fin p) (hinj : Function.Injective om) (hneg : ∀ i, (om i).re < 0)
    (hperm : ∀ i, om (perm i) = conj (om i)) (J : Fin p → ℂ) (hJ : Loads om J) (ma : ℕ → ℝ) (s2 : ℝ) (hs : 0 ≤ s2)
    (t e y : ℕ → ℝ) (ht : Monotone t) (he : ∀ c, e c ≠ 0) (T : ℝ) (ip r : ℕ)
    (h1 : ∀ j, j < ip → t j ≤ T) (h2 : T ≤ t ip)
    (b : Fin p → ℂ) (hb : b = bq om ma p) (Q : Fin p → Fin p → ℂ) (hQ : Q = SV om J s2)
    (hvT : 0 < Carp.vT om b Q t e T ip) (prec num : ℝ)
    (hprec : prec = 1 / Carp.vT om b Q t e T ip + ∑ j ∈ range r, Carp.cs om b Q t e T ip j * Carp.cs om b Q t e T ip j / Carp.cv om b Q t e T ip j)
    (hnum : num = Carp.mT om b Q t e T ip y / Carp.vT om b Q t e T ip
      + ∑ j ∈ range r, Carp.cs om b Q t e T ip j * (y (ip + j) - Carp.cc om b Q t e T ip y j) / Carp.cv om b Q t e T ip j)
    (C : ℕ → ℕ → ℝ) (hC : C = fun i j => acov om ma p s2 |ins ip t T i - ins ip t T j| + if i = j then ins ip e 0 i * ins ip e 0 i else 0) :
    (∃ g : ℕ → ℝ, g ip = 0 ∧ ∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) ∧
    ∀ g : ℕ → ℝ, g ip = 0 → (∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) →
      num / prec = ∑ l ∈ range (ip + 1 + r), g l * ins ip y 0 l ∧
      1 / prec = C ip ip - ∑ l ∈ range (ip + 1 + r), g l * C l ip := by
  have hP := pairs perm hJ hperm ma p s2
  have hS := stationary_psd (J := J) hneg s2 hs
  have hG := growth_psd (J := J) hneg s2 hs
  subst hb hQ
  refine Carp.predict_is_conditioning t e T ip hP r ht h1 h2 y (fun c _ => Carp.pos t e hP hS hG ht c (he c)) hvT ?_ prec num hprec hnum C ?_
  · intro j _
    have hp := Carp.psd (ins ip t T) (ins ip e 0) hP hS hG (mono_ins t T ip ht h1 h2) (ip + 1 + j)
    rw [(Carp.ext_after om (bq om ma p) (SV om J s2) t e T ip y 0 j).2.1] at hp
    have := hp (bq om ma p)
    have := mul_self_pos.mpr (he (ip + j))
    rw [Carp.cv, Carp.var]; linarith
  · rw [hC]; funext i j
    rw [Carp.S, Carp.K, autocovariance perm hJ hinj hneg hperm ma p le_rfl s2]; rfl

end Acov
