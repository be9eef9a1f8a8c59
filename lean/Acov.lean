import Mathlib.Tactic
import Mathlib.LinearAlgebra.Lagrange
import Mathlib.LinearAlgebra.Vandermonde
import Carp

open Finset ComplexConjugate Polynomial Matrix

/-! The eigenbasis of a CARMA process: the loading vector, the stationary covariance, and the autocovariance as the sum
of partial-fraction residues. -/
namespace Acov
variable {p : ℕ} {om : Fin p → ℂ}

/-- The loading vector: J solves the Vandermonde system. -/
def Loads (om J : Fin p → ℂ) : Prop := ∀ i, i < p → ∑ j, om j ^ i * J j = if i + 1 = p then 1 else 0

theorem loads_exists (hinj : Function.Injective om) : ∃ J, Loads om J := by
  have hdet : IsUnit (Matrix.vandermonde om)ᵀ.det := by
    rw [Matrix.det_transpose, isUnit_iff_ne_zero]; exact Matrix.det_vandermonde_ne_zero_iff.mpr hinj
  refine ⟨((Matrix.vandermonde om)ᵀ)⁻¹.mulVec (fun i => if (i : ℕ) + 1 = p then 1 else 0), fun i hi => ?_⟩
  have h := congrFun (show (Matrix.vandermonde om)ᵀ.mulVec (((Matrix.vandermonde om)ᵀ)⁻¹.mulVec (fun i : Fin p => if (i : ℕ) + 1 = p then (1:ℂ) else 0)) = _ by
    rw [Matrix.mulVec_mulVec, Matrix.mul_nonsing_inv _ hdet, Matrix.one_mulVec]) ⟨i, hi⟩
  simpa [Matrix.mulVec, dotProduct, Matrix.vandermonde_apply] using h

/-- J applied to a polynomial of degree below p picks the coefficient of degree p - 1. -/
theorem loads_poly {J : Fin p → ℂ} (hJ : Loads om J) (f : ℂ[X]) (hf : f.natDegree < p) :
    ∑ j, f.eval (om j) * J j = f.coeff (p - 1) := by
  have h1 : ∀ j, f.eval (om j) * J j = ∑ i ∈ range p, f.coeff i * (om j ^ i * J j) := by
    intro j
    rw [eval_eq_sum_range' hf, sum_mul]
    exact sum_congr rfl (fun i _ => by ring)
  rw [sum_congr rfl (fun j _ => h1 j), sum_comm]
  have h2 : ∀ i ∈ range p, ∑ j, f.coeff i * (om j ^ i * J j) = if i = p - 1 then f.coeff i else 0 := by
    intro i hi
    have hi := mem_range.mp hi
    rw [← mul_sum, hJ i hi]
    by_cases h : i = p - 1
    · simp [h, show p - 1 + 1 = p by omega]
    · simp [h, show ¬ i + 1 = p by omega]
  rw [sum_congr rfl h2]
  simp [show 0 < p by omega]

theorem loads_weight {J : Fin p → ℂ} (hJ : Loads om J) (k : Fin p) :
    J k = Lagrange.nodalWeight univ om k := by
  have hp : 0 < p := k.pos
  set f : ℂ[X] := ∏ l ∈ univ.erase k, (X - C (om l)) with hf
  have hm : f.Monic := monic_prod_of_monic _ _ (fun l _ => monic_X_sub_C _)
  have hd : f.natDegree = p - 1 := by
    rw [hf, natDegree_prod_of_monic _ _ (fun l _ => monic_X_sub_C _)]
    simp [card_erase_of_mem]
  have h1 := loads_poly hJ f (by omega)
  have h2 : f.coeff (p - 1) = 1 := by rw [← hd]; exact hm
  have h3 : ∀ j, j ≠ k → f.eval (om j) = 0 := by
    intro j hj
    rw [hf, eval_prod]
    exact prod_eq_zero (mem_erase.mpr ⟨hj, mem_univ j⟩) (by simp)
  rw [h2, sum_eq_single k (fun j _ hj => by rw [h3 j hj, zero_mul]) (by simp)] at h1
  have h4 : f.eval (om k) = ∏ l ∈ univ.erase k, (om k - om l) := by rw [hf, eval_prod]; simp
  rw [h4] at h1
  rw [Lagrange.nodalWeight, prod_inv_distrib]
  exact eq_inv_of_mul_eq_one_right h1

theorem loads_unique {J J' : Fin p → ℂ} (hJ : Loads om J) (hJ' : Loads om J') : J = J' := by
  funext k; rw [loads_weight hJ, loads_weight hJ']

variable (perm : Fin p ≃ Fin p)

theorem loads_perm {J : Fin p → ℂ} (hJ : Loads om J) (hperm : ∀ i, om (perm i) = conj (om i)) (k : Fin p) :
    J (perm k) = conj (J k) := by
  have : Loads om (fun i => conj (J (perm i))) := by
    intro i hi
    have h := hJ i hi
    rw [← Equiv.sum_comp perm] at h
    have h2 := congrArg conj h
    rw [map_sum] at h2
    rw [show (if i + 1 = p then (1:ℂ) else 0) = conj (if i + 1 = p then (1:ℂ) else 0) by split <;> simp, ← h2]
    refine sum_congr rfl (fun j _ => ?_)
    rw [hperm, map_mul, map_pow, Complex.conj_conj]
  have h := congrFun (loads_unique this hJ) k
  rw [← h, Complex.conj_conj]

/-- moving-average polynomial -/
noncomputable def beta (ma : ℕ → ℝ) (q : ℕ) : ℂ[X] := ∑ k ∈ range q, C (ma k : ℂ) * X ^ k
/-- moving-average row in the eigenbasis -/
noncomputable def bq (om : Fin p → ℂ) (ma : ℕ → ℝ) (q : ℕ) (i : Fin p) : ℂ := ∑ k ∈ range q, (ma k : ℂ) * om i ^ k
/-- stationary covariance in the eigenbasis -/
noncomputable def SV (om J : Fin p → ℂ) (s2 : ℝ) (i j : Fin p) : ℂ := - s2 * J i * conj (J j) / (om i + conj (om j))

theorem beta_eval (ma : ℕ → ℝ) (q : ℕ) (z : ℂ) : (beta ma q).eval z = ∑ k ∈ range q, (ma k : ℂ) * z ^ k := by
  simp [beta, eval_finsetSum]

/-- The stationary covariance solves the Lyapunov equation of the diagonal system driven by J. -/
theorem lyapunov {J : Fin p → ℂ} (s2 : ℝ) (i j : Fin p) (h : om i + conj (om j) ≠ 0) :
    om i * SV om J s2 i j + SV om J s2 i j * conj (om j) + s2 * J i * conj (J j) = 0 := by
  rw [SV]; field_simp; ring

/-- Distinct roots closed under conjugation give the symmetries the filter theorems ask for. -/
def pairs {J : Fin p → ℂ} (hJ : Loads om J) (hperm : ∀ i, om (perm i) = conj (om i))
    (ma : ℕ → ℝ) (q : ℕ) (s2 : ℝ) : Carp.Pairs om (bq om ma q) (SV om J s2) where
  herm := fun i j => by
    simp only [SV, map_div₀, map_mul, map_neg, map_add, Complex.conj_conj, Complex.conj_ofReal]
    rw [add_comm (om j)]; ring
  perm := perm
  om_perm := hperm
  b_perm := fun i => by simp [bq, hperm]
  Q_perm := fun i j => by
    simp only [SV, map_div₀, map_mul, map_neg, map_add, Complex.conj_conj, Complex.conj_ofReal]
    rw [hperm, hperm, loads_perm perm hJ hperm, loads_perm perm hJ hperm]; simp

/-- partial fractions of beta / alpha at minus a root -/
theorem partial_fractions {J : Fin p → ℂ} (hJ : Loads om J) (hinj : Function.Injective om) (hneg : ∀ i, (om i).re < 0)
    (ma : ℕ → ℝ) (q : ℕ) (hq : q ≤ p) (i : Fin p) :
    (∑ k ∈ range q, (ma k : ℂ) * (- om i) ^ k) = (∏ l, (- om i - om l)) * ∑ j, J j * (- om i - om j)⁻¹ * bq om ma q j := by
  have hdeg : (beta ma q).degree < (univ : Finset (Fin p)).card := by
    rw [card_univ, Fintype.card_fin]
    refine lt_of_lt_of_le ?_ (Nat.cast_le.mpr hq)
    rw [beta]
    refine (degree_sum_le _ _).trans_lt ((Finset.sup_lt_iff (WithBot.bot_lt_coe q)).mpr (fun k hk => ?_))
    exact (degree_C_mul_X_pow_le k _).trans_lt (Nat.cast_lt.mpr (mem_range.mp hk))
  have h1 := Lagrange.eq_interpolate (s := univ) (v := om) hinj.injOn hdeg
  have hne : ∀ j ∈ univ, - om i ≠ om j := by
    intro j _ h
    have := congrArg Complex.re h
    have h1 := hneg i; have h2 := hneg j
    simp at this; linarith
  have h2 := congrArg (eval (- om i)) h1
  rw [Lagrange.eval_interpolate_not_at_node _ hne, Lagrange.eval_nodal, beta_eval] at h2
  rw [h2]
  congr 1
  refine sum_congr rfl (fun j _ => ?_)
  rw [loads_weight hJ, beta_eval]; rfl

/-- M05: the autocovariance of the state-space form is the sum over the roots of the residues times exp(root * lag). -/
theorem autocovariance {J : Fin p → ℂ} (hJ : Loads om J) (hinj : Function.Injective om) (hneg : ∀ i, (om i).re < 0)
    (hperm : ∀ i, om (perm i) = conj (om i)) (ma : ℕ → ℝ) (q : ℕ) (hq : q ≤ p) (s2 d : ℝ) :
    Carp.R om (bq om ma q) (SV om J s2) d =
      s2 * (∑ k, (∑ m ∈ range q, (ma m : ℂ) * om k ^ m) * (∑ m ∈ range q, (ma m : ℂ) * (- om k) ^ m) * Complex.exp (om k * d)
        / (-2 * (om k).re * ∏ l, if l = k then 1 else (om l - om k) * (conj (om l) + om k))).re := by
  rw [← Complex.re_ofReal_mul, Carp.R, mul_sum]
  congr 1
  refine sum_congr rfl (fun i _ => ?_)
  have hne : ∀ j, om i + om j ≠ 0 := by
    intro j h
    have := congrArg Complex.re h
    have h1 := hneg i; have h2 := hneg j
    simp at this; linarith
  have hcne : ∀ j, om i + conj (om j) ≠ 0 := by
    intro j h
    have := congrArg Complex.re h
    have h1 := hneg i; have h2 := hneg j
    simp at this; linarith
  -- inner sum by partial fractions
  have h1 : ∑ j, SV om J s2 i j * conj (bq om ma q j) = - s2 * J i * ∑ j, J j * bq om ma q j / (om i + om j) := by
    rw [← Equiv.sum_comp perm (fun j => J j * bq om ma q j / (om i + om j)), mul_sum]
    refine sum_congr rfl (fun j _ => ?_)
    rw [loads_perm perm hJ hperm, hperm, show bq om ma q (perm j) = conj (bq om ma q j) from (pairs perm hJ hperm ma q s2).b_perm j, SV]
    ring
  have h2 := partial_fractions hJ hinj hneg ma q hq i
  have h3 : ∑ j, J j * (- om i - om j)⁻¹ * bq om ma q j = - ∑ j, J j * bq om ma q j / (om i + om j) := by
    rw [← sum_neg_distrib]
    refine sum_congr rfl (fun j _ => ?_)
    rw [show - om i - om j = - (om i + om j) by ring, inv_neg]; ring
  rw [h3] at h2
  -- denominator
  have h4 : ∏ l, (- om i - om l) = (-2 * (om i).re) * ∏ l ∈ univ.erase i, (- (om i + conj (om l))) := by
    rw [← Equiv.prod_comp perm]
    rw [← mul_prod_erase univ _ (mem_univ i)]
    congr 1
    · rw [hperm, show - om i - conj (om i) = - (om i + conj (om i)) by ring, Complex.add_conj]; push_cast; ring
    · exact prod_congr rfl (fun l _ => by rw [hperm]; ring)
  have h5 : J i = (∏ l ∈ univ.erase i, (om i - om l))⁻¹ := by
    rw [loads_weight hJ, Lagrange.nodalWeight, prod_inv_distrib]
  have h6 : (∏ l, if l = i then (1:ℂ) else (om l - om i) * (conj (om l) + om i))
      = (∏ l ∈ univ.erase i, (om i - om l)) * ∏ l ∈ univ.erase i, (- (om i + conj (om l))) := by
    rw [← mul_prod_erase univ _ (mem_univ i), if_pos rfl, one_mul, ← prod_mul_distrib]
    refine prod_congr rfl (fun l hl => ?_)
    rw [if_neg (ne_of_mem_erase hl)]; ring
  have n1 : ∏ l ∈ univ.erase i, (om i - om l) ≠ 0 :=
    prod_ne_zero_iff.mpr (fun l hl => sub_ne_zero.mpr (fun h => (ne_of_mem_erase hl) (hinj h).symm))
  have n2 : ∏ l ∈ univ.erase i, (- (om i + conj (om l))) ≠ 0 :=
    prod_ne_zero_iff.mpr (fun l _ => neg_ne_zero.mpr (hcne l))
  have n3 : ((om i).re : ℂ) ≠ 0 := by exact_mod_cast (hneg i).ne
  rw [show (∑ j, bq om ma q i * Carp.rho om i d * SV om J s2 i j * conj (bq om ma q j))
      = bq om ma q i * Carp.rho om i d * ∑ j, SV om J s2 i j * conj (bq om ma q j) by
    rw [mul_sum]; exact sum_congr rfl (fun j _ => by ring)]
  rw [h1, h2, h4, h5, h6, Carp.rho, bq]
  field_simp

end Acov
