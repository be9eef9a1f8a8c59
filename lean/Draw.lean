import Posp
import Pos1

/-! Drawing each value from its distribution given the values already drawn gives a joint draw. -/
namespace Cond
open Finset Matrix
variable {n : ℕ} {S a : ℕ → ℕ → ℝ} {v : ℕ → ℝ}

/-- Values made one after the other as the prediction from the values before plus the predicted standard deviation times
a standard normal z are G z with G G^T the covariance matrix: with independent z a joint draw. -/
theorem draw (h : Innov n S a v) (hv : ∀ c, c < n → 0 < v c) (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = of fun i j : Fin n => S i j) :
    ∃ G : Matrix (Fin n) (Fin n) ℝ, G * Gᵀ = M ∧
      ∀ z y : ℕ → ℝ, (∀ c, c < n → y c = ∑ l ∈ range c, a c l * y l + Real.sqrt (v c) * z c) →
        (fun i : Fin n => y i) = G.mulVec fun i : Fin n => z i := by
  obtain ⟨h1, h2, _, _, _⟩ := fact h (fun c hc => (hv c hc).ne') M _ _ hM rfl rfl
  set L : Matrix (Fin n) (Fin n) ℝ := of fun i j : Fin n => A a i j with hL
  have hLu : IsUnit L.det := by rw [h2]; exact isUnit_one
  have hLT : IsUnit Lᵀ.det := by rw [det_transpose]; exact hLu
  set E : Matrix (Fin n) (Fin n) ℝ := diagonal fun i : Fin n => Real.sqrt (v i) with hE
  have hEE : E * Eᵀ = diagonal fun i : Fin n => v i := by
    rw [hE, diagonal_transpose, diagonal_mul_diagonal]
    congr 1; funext i; exact Real.mul_self_sqrt (hv i i.2).le
  refine ⟨L⁻¹ * E, ?_, ?_⟩
  · rw [transpose_mul, transpose_nonsing_inv]
    calc L⁻¹ * E * (Eᵀ * (Lᵀ)⁻¹) = L⁻¹ * (E * Eᵀ) * (Lᵀ)⁻¹ := by simp only [Matrix.mul_assoc]
      _ = L⁻¹ * (L * M * Lᵀ) * (Lᵀ)⁻¹ := by rw [hEE, h1]
      _ = (L⁻¹ * L) * M * (Lᵀ * (Lᵀ)⁻¹) := by simp only [Matrix.mul_assoc]
      _ = M := by rw [nonsing_inv_mul _ hLu, mul_nonsing_inv _ hLT, Matrix.one_mul, Matrix.mul_one]
  · intro z y hy
    have hLy : L.mulVec (fun i : Fin n => y i) = E.mulVec fun i : Fin n => z i := by
      funext c
      have h3 := inn_eq (n := n) (a := a) y c c.2
      rw [inn, hy c c.2, add_sub_cancel_left, Finset.sum_range] at h3
      simp only [hL, hE, mulVec_diagonal]
      rw [mulVec, dotProduct]
      simp only [of_apply]
      exact h3.symm
    rw [← mulVec_mulVec, ← hLy, mulVec_mulVec, nonsing_inv_mul _ hLu, one_mulVec]

end Cond

namespace Acov
open Finset ComplexConjugate
variable {p : ℕ} {om : Fin p → ℂ}

/-- Y06: values drawn one after the other by the filter without errors are a joint draw of the process. -/
theorem draw (perm : Fin p ≃ Fin p) (hinj : Function.Injective om) (hneg : ∀ i, (om i).re < 0)
    (hperm : ∀ i, om (perm i) = conj (om i)) (J : Fin p → ℂ) (hJ : Loads om J) (ma : ℕ → ℝ) (q : ℕ) (hq : q ≤ p) (s2 : ℝ)
    (t : ℕ → ℝ) (ht : Monotone t) (n : ℕ) (hv : ∀ c, c < n → 0 < Carp.v om (bq om ma q) (SV om J s2) t (fun _ => 0) c)
    (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = Matrix.of fun i j : Fin n => acov om ma q s2 |t i - t j|) :
    ∃ G : Matrix (Fin n) (Fin n) ℝ, G * G.transpose = M ∧
      ∀ z y : ℕ → ℝ, (∀ c, c < n → y c = Carp.m om (bq om ma q) (SV om J s2) t (fun _ => 0) y c
            + Real.sqrt (Carp.v om (bq om ma q) (SV om J s2) t (fun _ => 0) c) * z c) →
        (fun i : Fin n => y i) = G.mulVec fun i : Fin n => z i := by
  have hP := pairs perm hJ hperm ma q s2
  have hi := Carp.innov t (fun _ => 0) n hP ht (fun c hc => (hv c hc).ne')
  obtain ⟨G, h1, h2⟩ := Cond.draw hi hv M (by
    rw [hM]; congr 1; funext i j
    rw [Carp.S, Carp.K, autocovariance perm hJ hinj hneg hperm ma q hq s2]; simp [acov])
  refine ⟨G, h1, fun z y hy => h2 z y (fun c hc => ?_)⟩
  rw [hy c hc, Carp.linear]

end Acov

namespace Car1
open Finset Real
variable (w s2 : ℝ) (t : ℕ → ℝ)

/-- Y06: the autoregression of the CAR(1) generator is a joint draw of the process. -/
theorem draw (hw : 0 < w) (hs : 0 < s2) (ht : StrictMono t) (n : ℕ)
    (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = Matrix.of fun i j : Fin n => K w s2 t i j) :
    ∃ G : Matrix (Fin n) (Fin n) ℝ, G * G.transpose = M ∧
      ∀ z y : ℕ → ℝ, y 0 = √(s2 / (2 * w)) * z 0 →
        (∀ c, y (c+1) = exp (-w * (t (c+1) - t c)) * y c
            + √(s2 / (2 * w) * (1 - exp (-w * (t (c+1) - t c)) * exp (-w * (t (c+1) - t c)))) * z (c+1)) →
        (fun i : Fin n => y i) = G.mulVec fun i : Fin n => z i := by
  have hv := fun c => lt_of_le_of_lt (mul_self_nonneg _) (pos w s2 t (fun _ => 0) hw hs ht c)
  have hi := innov w s2 t (fun _ => 0) n ht.monotone (fun c _ => (hv c).ne')
  obtain ⟨G, h1, h2⟩ := Cond.draw hi (fun c _ => hv c) M (by
    rw [hM]; congr 1; funext i j; simp [S])
  refine ⟨G, h1, fun z y h0 hy => h2 z y (fun c _ => ?_)⟩
  rw [← linear]
  cases c with
  | zero => simp [m, v, h0]
  | succ c =>
    have := (hv c).ne'
    rw [hy c]
    simp only [m, v]
    have e1 : (v w s2 t (fun _ => 0) c - 0 * 0) / v w s2 t (fun _ => 0) c = 1 := by field_simp; ring
    rw [mul_div_assoc, e1]
    ring_nf
end Car1
