import Mathlib.Tactic
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse

open Finset

/-! Innovations form of a Gaussian vector. S is a symmetric covariance matrix of observations 0..n-1 and for every c
the weights a c l (l < c) solve the normal equations of predicting c from the observations before it, with v c
the variance not explained. -/
namespace Cond
variable (n : ℕ) (S a : ℕ → ℕ → ℝ) (v : ℕ → ℝ)

structure Innov : Prop where
  symm : ∀ i j, S i j = S j i
  normal : ∀ c, c < n → ∀ j, j < c → ∑ l ∈ range c, a c l * S l j = S c j
  expl : ∀ c, c < n → v c = S c c - ∑ l ∈ range c, a c l * S l c

/-- innovation c of the data z -/
def inn (z : ℕ → ℝ) (c : ℕ) : ℝ := z c - ∑ l ∈ range c, a c l * z l

/-- coefficient of observation k in innovation c -/
def A (c k : ℕ) : ℝ := if k = c then 1 else if k < c then - a c k else 0

variable {n S a v}

theorem inn_eq (z : ℕ → ℝ) (c : ℕ) (hc : c < n) : inn a z c = ∑ k ∈ range n, A a c k * z k := by
  have hsub : range (c+1) ⊆ range n := range_subset_range.mpr (by omega)
  rw [← sum_subset hsub]
  · rw [sum_range_succ, inn]
    have : ∑ x ∈ range c, A a c x * z x = - ∑ l ∈ range c, a c l * z l := by
      rw [← sum_neg_distrib]
      refine sum_congr rfl (fun l hl => ?_)
      have := mem_range.mp hl
      simp [A, this, Nat.ne_of_lt this]
    rw [this]; simp [A]; ring
  · intro k _ hk
    have : ¬ k < c + 1 := fun h => hk (mem_range.mpr h)
    simp [A, show k ≠ c by omega, show ¬ k < c by omega]

/-- the innovation of a covariance column: zero before the diagonal, v on it -/
theorem inn_col (h : Innov n S a v) (c j : ℕ) (hc : c < n) (hj : j ≤ c) :
    inn a (fun l => S l j) c = if j = c then v c else 0 := by
  by_cases hjc : j = c
  · subst hjc; simp [inn, h.expl j hc]
  · have := h.normal c hc j (by omega)
    simp [inn, this, hjc]

/-- innovations are uncorrelated: A S A^T = diag v -/
theorem ASA (h : Innov n S a v) (c d : ℕ) (hc : c < n) (hd : d < n) :
    ∑ j ∈ range n, (∑ i ∈ range n, A a c i * S i j) * A a d j = if c = d then v c else 0 := by
  have key : ∀ c d, c < n → d < n → d ≤ c →
      ∑ j ∈ range n, (∑ i ∈ range n, A a c i * S i j) * A a d j = if c = d then v c else 0 := by
    intro c d hc hd hdc
    have h1 : ∀ j, j ∈ range n → (∑ i ∈ range n, A a c i * S i j) * A a d j = if j = c then (if c = d then v c else 0) else 0 := by
      intro j _
      rw [← inn_eq (fun i => S i j) c hc]
      by_cases hj : j ≤ c
      · rw [inn_col h c j hc hj]
        by_cases hjc : j = c
        · subst hjc
          by_cases hjd : j = d
          · simp [A, hjd]
          · simp [A, hjd, show ¬ j < d by omega]
        · simp [hjc]
      · simp [A, show j ≠ d by omega, show ¬ j < d by omega, show j ≠ c by omega]
    rw [sum_congr rfl h1]
    simp [hc]
  rcases Nat.le_total d c with hdc | hcd
  · exact key c d hc hd hdc
  · have := key d c hd hc hcd
    have hs : ∑ j ∈ range n, (∑ i ∈ range n, A a c i * S i j) * A a d j = ∑ j ∈ range n, (∑ i ∈ range n, A a d i * S i j) * A a c j := by
      simp only [sum_mul]
      rw [sum_comm]
      refine sum_congr rfl (fun i _ => sum_congr rfl (fun j _ => ?_))
      rw [h.symm i j]; ring
    rw [hs, this]
    by_cases hcd' : c = d <;> simp [hcd', eq_comm]

open Matrix in
/-- matrix of the normal equations -/
theorem fact (h : Innov n S a v) (hv : ∀ c, c < n → v c ≠ 0)
    (M L D : Matrix (Fin n) (Fin n) ℝ) (hM : M = of fun i j : Fin n => S i j) (hL : L = of fun i j : Fin n => A a i j)
    (hD : D = diagonal fun i : Fin n => v i) :
    L * M * Lᵀ = D ∧ L.det = 1 ∧ M.det = ∏ c : Fin n, v c ∧ IsUnit M.det ∧ M⁻¹ = Lᵀ * D⁻¹ * L := by
  have h1 : L * M * Lᵀ = D := by
    ext c d
    have := ASA h c d c.2 d.2
    simp only [Finset.sum_range] at this
    rw [hL, hM, hD]
    simp only [mul_apply, transpose_apply, of_apply, diagonal_apply]
    rw [this]; simp [Fin.ext_iff]
  have h2 : L.det = 1 := by
    rw [det_of_isLowerTriangular]
    · refine prod_eq_one (fun i _ => ?_)
      rw [hL]; simp [A]
    · intro i j hij
      have hij' : (i : ℕ) < j := hij
      rw [hL]; simp only [of_apply, A]; rw [if_neg (by omega), if_neg (by omega)]
  have h3 : M.det = ∏ c : Fin n, v c := by
    have := congrArg det h1
    rw [det_mul, det_mul, det_transpose, h2, hD, det_diagonal] at this
    simpa using this
  have hvu : IsUnit M.det := by
    rw [h3, isUnit_iff_ne_zero]
    exact prod_ne_zero_iff.mpr (fun c _ => hv c c.2)
  refine ⟨h1, h2, h3, hvu, ?_⟩
  have hLu : IsUnit L.det := by rw [h2]; exact isUnit_one
  have hDu : IsUnit D.det := by rw [← h1, det_mul, det_mul, det_transpose, h2]; simpa using hvu
  refine inv_eq_right_inv ?_
  have hLT : IsUnit Lᵀ.det := by rw [det_transpose]; exact hLu
  have hMe : M = L⁻¹ * D * (Lᵀ)⁻¹ := by
    rw [← h1, Matrix.mul_assoc, Matrix.mul_assoc, Matrix.mul_assoc, mul_nonsing_inv _ hLT, Matrix.mul_one, ← Matrix.mul_assoc, nonsing_inv_mul _ hLu, Matrix.one_mul]
  calc M * (Lᵀ * D⁻¹ * L) = L⁻¹ * D * (((Lᵀ)⁻¹ * Lᵀ) * D⁻¹ * L) := by rw [hMe]; simp only [Matrix.mul_assoc]
    _ = L⁻¹ * (D * D⁻¹) * L := by rw [nonsing_inv_mul _ hLT, Matrix.one_mul]; simp only [Matrix.mul_assoc]
    _ = 1 := by rw [mul_nonsing_inv _ hDu, Matrix.mul_one, nonsing_inv_mul _ hLu]

open Matrix in
/-- Sum of squared standardised innovations = quadratic form of the inverse covariance matrix, product of the
variances = determinant: the Gaussian log-density of the data is the sum of the log-densities of the innovations. -/
theorem density (h : Innov n S a v) (hv : ∀ c, c < n → v c ≠ 0) (M : Matrix (Fin n) (Fin n) ℝ)
    (hM : M = of fun i j : Fin n => S i j) (z : ℕ → ℝ) :
    (∑ c ∈ range n, inn a z c * inn a z c / v c = (fun i : Fin n => z i) ⬝ᵥ (M⁻¹ *ᵥ fun i : Fin n => z i)) ∧
    ∏ c ∈ range n, v c = M.det := by
  obtain ⟨_, _, h3, _, h5⟩ := fact h hv M _ _ hM rfl rfl
  refine ⟨?_, by rw [h3, Finset.prod_range]⟩
  set L : Matrix (Fin n) (Fin n) ℝ := of fun i j : Fin n => A a i j with hL
  set z' := fun i : Fin n => z i
  have hLz : L *ᵥ z' = fun c : Fin n => inn a z c := by
    funext c
    rw [inn_eq z c c.2, Finset.sum_range]; simp [mulVec, dotProduct, hL, z']
  have hDi : (diagonal fun i : Fin n => v i)⁻¹ = diagonal fun i : Fin n => (v i)⁻¹ := by
    refine inv_eq_right_inv ?_
    rw [diagonal_mul_diagonal]
    rw [← diagonal_one]; congr 1; funext i; exact mul_inv_cancel₀ (hv i i.2)
  rw [h5, ← mulVec_mulVec, ← mulVec_mulVec, hLz, hDi, dotProduct_mulVec, vecMul_transpose, hLz, Finset.sum_range]
  simp only [dotProduct, mulVec_diagonal]
  exact sum_congr rfl (fun c _ => by field_simp)

/-- sum_c A c j inn(z, c) / v c  is  M^-1 z -/
theorem solve (h : Innov n S a v) (hv : ∀ c, c < n → v c ≠ 0) (z : ℕ → ℝ) (i : ℕ) (hi : i < n) :
    ∑ j ∈ range n, S i j * (∑ c ∈ range n, A a c j * inn a z c / v c) = z i := by
  -- u z j = sum_c A c j inn(z, c) / v c  is  M^-1 z
  obtain ⟨_, _, _, hdet, h5⟩ := fact h hv _ _ _ rfl rfl rfl
  set M : Matrix (Fin n) (Fin n) ℝ := Matrix.of fun i j : Fin n => S i j with hM
  set L : Matrix (Fin n) (Fin n) ℝ := Matrix.of fun i j : Fin n => A a i j with hL
  have hDi : (Matrix.diagonal fun i : Fin n => v i)⁻¹ = Matrix.diagonal fun i : Fin n => (v i)⁻¹ := by
    refine Matrix.inv_eq_right_inv ?_
    rw [Matrix.diagonal_mul_diagonal]
    rw [← Matrix.diagonal_one]; congr 1; funext i; exact mul_inv_cancel₀ (hv i i.2)
  · have h6 : M.mulVec (M⁻¹.mulVec fun l : Fin n => z l) = fun l : Fin n => z l := by
      rw [Matrix.mulVec_mulVec, Matrix.mul_nonsing_inv _ hdet, Matrix.one_mulVec]
    have hLz : L.mulVec (fun l : Fin n => z l) = fun c : Fin n => inn a z c := by
      funext c
      rw [inn_eq z c c.2, Finset.sum_range]; simp [Matrix.mulVec, dotProduct, hL]
    rw [h5, ← Matrix.mulVec_mulVec, ← Matrix.mulVec_mulVec, hLz, hDi] at h6
    have := congrFun h6 ⟨i, hi⟩
    simp only [Matrix.mulVec, dotProduct, Matrix.transpose_apply, hM, hL, Matrix.of_apply, Matrix.diagonal_apply, ite_mul, zero_mul,
      Finset.sum_ite_eq, Finset.mem_univ, if_true] at this
    rw [Finset.sum_range, ← this]
    refine sum_congr rfl (fun j _ => ?_)
    rw [Finset.sum_range]
    congr 1
    exact sum_congr rfl (fun c _ => by ring)

/-- Conditioning observation k on all the others. If g solves the normal equations of predicting k from the others,
then the value and variance got from the innovations that depend on k are the conditional mean and variance. -/
theorem smooth (h : Innov n S a v) (hv : ∀ c, c < n → v c ≠ 0) (k : ℕ) (hk : k < n) (y : ℕ → ℝ)
    (g : ℕ → ℝ) (hg0 : g k = 0) (hg : ∀ j, j < n → j ≠ k → ∑ l ∈ range n, g l * S l j = S k j)
    (prec num : ℝ) (hprec : prec = ∑ c ∈ range n, A a c k * A a c k / v c)
    (hnum : num = - ∑ c ∈ range n, A a c k * inn a (fun l => if l = k then 0 else y l) c / v c) (hp : prec ≠ 0) :
    num / prec = ∑ l ∈ range n, g l * y l ∧ 1 / prec = S k k - ∑ l ∈ range n, g l * S l k := by
  have hu := solve h hv
  -- value: the data with the predicted value in place k
  set y0 : ℕ → ℝ := fun l => if l = k then 0 else y l with hy0
  have hlin : ∀ x c, c < n → inn a (fun l => if l = k then x else y l) c = inn a y0 c + A a c k * x := by
    intro x c hc
    rw [inn_eq _ c hc, inn_eq _ c hc]
    have : ∀ l ∈ range n, A a c l * (if l = k then x else y l) = A a c l * y0 l + if l = k then A a c k * x else 0 := by
      intro l _
      by_cases hl : l = k
      · subst hl; simp [hy0]
      · simp [hy0, hl]
    rw [sum_congr rfl this, sum_add_distrib]
    simp [hk]
  -- a vector u with u k = 0 is weighed by g as by row k of S
  have hrow : ∀ u : ℕ → ℝ, ∑ j ∈ range n, S k j * u j = S k k * u k - (∑ l ∈ range n, g l * S l k) * u k + ∑ l ∈ range n, g l * ∑ j ∈ range n, S l j * u j := by
    intro u
    have e1 : ∑ l ∈ range n, g l * ∑ j ∈ range n, S l j * u j = ∑ j ∈ range n, (∑ l ∈ range n, g l * S l j) * u j := by
      simp only [mul_sum, sum_mul]
      rw [sum_comm]
      exact sum_congr rfl (fun j _ => sum_congr rfl (fun l _ => by ring))
    have e2 : ∀ j ∈ range n, S k j * u j = (∑ l ∈ range n, g l * S l j) * u j + if j = k then (S k k - ∑ l ∈ range n, g l * S l k) * u k else 0 := by
      intro j hj
      by_cases hjk : j = k
      · subst hjk; simp; ring
      · rw [hg j (mem_range.mp hj) hjk]; simp [hjk]
    rw [e1, sum_congr rfl e2, sum_add_distrib]
    simp [hk]; ring
  constructor
  · set x := num / prec with hx
    set z : ℕ → ℝ := fun l => if l = k then x else y l with hz
    set u : ℕ → ℝ := fun j => ∑ c ∈ range n, A a c j * inn a z c / v c with hudef
    have huk : u k = 0 := by
      have e : ∀ c ∈ range n, A a c k * inn a z c / v c = A a c k * inn a y0 c / v c + A a c k * A a c k / v c * x := by
        intro c hc
        rw [hlin x c (mem_range.mp hc)]; ring
      simp only [hudef]
      rw [sum_congr rfl e, sum_add_distrib, ← sum_mul, ← hprec, hx, mul_div_cancel₀ _ hp, hnum]
      ring
    have h7 := hu z k hk
    have h8 := hrow u
    rw [huk] at h8
    have h9 : ∑ l ∈ range n, g l * ∑ j ∈ range n, S l j * u j = ∑ l ∈ range n, g l * y l := by
      refine sum_congr rfl (fun l hl => ?_)
      rw [hu z l (mem_range.mp hl)]
      by_cases hlk : l = k
      · subst hlk; simp [hg0]
      · simp [hz, hlk]
    rw [h9] at h8
    have : z k = x := by simp [hz]
    rw [← this, ← h7]
    linarith
  · set z : ℕ → ℝ := fun l => if l = k then 1 else 0 with hz
    set u : ℕ → ℝ := fun j => ∑ c ∈ range n, A a c j * inn a z c / v c with hudef
    have huk : u k = prec := by
      simp only [hudef]
      rw [hprec]
      refine sum_congr rfl (fun c hc => ?_)
      rw [inn_eq z c (mem_range.mp hc)]
      simp [hz, hk]
    have h7 := hu z k hk
    have h8 := hrow u
    have h9 : ∑ l ∈ range n, g l * ∑ j ∈ range n, S l j * u j = 0 := by
      refine sum_eq_zero (fun l hl => ?_)
      rw [hu z l (mem_range.mp hl)]
      by_cases hlk : l = k
      · subst hlk; simp [hg0]
      · simp [hz, hlk]
    rw [h9, huk] at h8
    have h10 : z k = 1 := by simp [hz]
    rw [h10] at h7
    rw [div_eq_iff hp]
    linarith

/-- such weights exist -/
theorem weights (h : Innov n S a v) (hv : ∀ c, c < n → v c ≠ 0) (k : ℕ) (hk : k < n)
    (hp : ∑ c ∈ range n, A a c k * A a c k / v c ≠ 0) :
    ∃ g : ℕ → ℝ, g k = 0 ∧ ∀ j, j < n → j ≠ k → ∑ l ∈ range n, g l * S l j = S k j := by
  set u : ℕ → ℝ := fun j => ∑ c ∈ range n, A a c j * inn a (fun l => if l = k then 1 else 0) c / v c with hudef
  set prec := ∑ c ∈ range n, A a c k * A a c k / v c with hprec
  have huk : u k = prec := by
    simp only [hudef]
    refine sum_congr rfl (fun c hc => ?_)
    rw [inn_eq _ c (mem_range.mp hc)]
    simp [hk]
  refine ⟨fun l => if l = k then 0 else - u l / prec, by simp, fun j hj hjk => ?_⟩
  have h1 : ∑ l ∈ range n, u l * S l j = 0 := by
    have := solve h hv (fun l => if l = k then 1 else 0) j hj
    simp only [hjk, if_false] at this
    rw [← this]
    exact sum_congr rfl (fun l _ => by rw [h.symm l j, mul_comm])
  have e2 : ∀ l ∈ range n, (if l = k then 0 else - u l / prec) * S l j = - (u l * S l j) / prec + if l = k then u k * S k j / prec else 0 := by
    intro l _
    by_cases hlk : l = k
    · subst hlk; simp; ring
    · simp [hlk]; ring
  rw [sum_congr rfl e2, sum_add_distrib, ← sum_div, sum_neg_distrib, h1]
  simp [hk, huk]
  field_simp

/-- The same with the innovations that depend on k written out: k itself and those after it. -/
theorem smooth_after (k r : ℕ) (h : Innov (k + 1 + r) S a v) (hv : ∀ c, c < k + 1 + r → 0 < v c) (y : ℕ → ℝ)
    (prec num : ℝ) (hprec : prec = 1 / v k + ∑ j ∈ range r, a (k + 1 + j) k * a (k + 1 + j) k / v (k + 1 + j))
    (hnum : num = (∑ l ∈ range k, a k l * y l) / v k
      + ∑ j ∈ range r, a (k + 1 + j) k * (y (k + 1 + j) - ∑ l ∈ range (k + 1 + j), a (k + 1 + j) l * if l = k then 0 else y l) / v (k + 1 + j)) :
    (∃ g : ℕ → ℝ, g k = 0 ∧ ∀ j, j < k + 1 + r → j ≠ k → ∑ l ∈ range (k + 1 + r), g l * S l j = S k j) ∧
    ∀ g : ℕ → ℝ, g k = 0 → (∀ j, j < k + 1 + r → j ≠ k → ∑ l ∈ range (k + 1 + r), g l * S l j = S k j) →
      num / prec = ∑ l ∈ range (k + 1 + r), g l * y l ∧ 1 / prec = S k k - ∑ l ∈ range (k + 1 + r), g l * S l k := by
  have hk : k < k + 1 + r := by omega
  have hv0 : ∀ c, c < k + 1 + r → v c ≠ 0 := fun c hc => (hv c hc).ne'
  have split : ∀ f : ℕ → ℝ, (∀ c, c < k → f c = 0) → ∑ c ∈ range (k + 1 + r), f c = f k + ∑ j ∈ range r, f (k + 1 + j) := by
    intro f hf
    rw [sum_range_add, sum_range_succ, sum_eq_zero (fun c hc => hf c (mem_range.mp hc)), zero_add]
  have hA0 : ∀ c, c < k → A a c k = 0 := fun c hc => by simp [A, show k ≠ c by omega, show ¬ k < c by omega]
  have hAk : A a k k = 1 := by simp [A]
  have hA1 : ∀ j, A a (k + 1 + j) k = - a (k + 1 + j) k := fun j => by
    simp [A, show k ≠ k + 1 + j by omega, show k < k + 1 + j by omega]
  have hp1 : prec = ∑ c ∈ range (k + 1 + r), A a c k * A a c k / v c := by
    rw [split _ (fun c hc => by rw [hA0 c hc]; simp), hprec, hAk]
    congr 1
    · ring
    · exact sum_congr rfl (fun j _ => by rw [hA1]; ring)
  have hpos : 0 < prec := by
    rw [hprec]
    have h1 : 0 < 1 / v k := one_div_pos.mpr (hv k hk)
    have h2 : 0 ≤ ∑ j ∈ range r, a (k + 1 + j) k * a (k + 1 + j) k / v (k + 1 + j) :=
      sum_nonneg (fun j hj => div_nonneg (mul_self_nonneg _) (hv _ (by have := mem_range.mp hj; omega)).le)
    linarith
  have hn1 : num = - ∑ c ∈ range (k + 1 + r), A a c k * inn a (fun l => if l = k then 0 else y l) c / v c := by
    rw [split _ (fun c hc => by rw [hA0 c hc]; simp), hnum, hAk, neg_add]
    congr 1
    · have : ∀ l ∈ range k, a k l * y l = a k l * (if l = k then 0 else y l) := by
        intro l hl
        have := mem_range.mp hl
        simp [show l ≠ k by omega]
      rw [inn, sum_congr rfl this]; simp; ring
    · rw [← sum_neg_distrib]
      refine sum_congr rfl (fun j _ => ?_)
      rw [hA1, inn]; simp [show k + 1 + j ≠ k by omega]; ring
  exact ⟨weights h hv0 k hk (by rw [← hp1]; exact hpos.ne'), fun g hg0 hg => smooth h hv0 k hk y g hg0 hg prec num hp1 hn1 hpos.ne'⟩

end Cond
