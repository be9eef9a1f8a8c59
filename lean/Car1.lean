import Mathlib.Tactic
import Mathlib.Analysis.SpecialFunctions.Exp
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Cond

open Real Finset

namespace Car1
variable (w s2 : ℝ) (t e : ℕ → ℝ)

/-- covariance of the process at two observation times -/
noncomputable def K (i j : ℕ) : ℝ := s2 / (2 * w) * exp (-w * |t i - t j|)
/-- covariance of two observations -/
noncomputable def S (i j : ℕ) : ℝ := K w s2 t i j + if i = j then e i * e i else 0

noncomputable def v : ℕ → ℝ
  | 0 => s2 / (2 * w) + e 0 * e 0
  | c + 1 => s2 / (2 * w) * (1 - exp (-w * (t (c+1) - t c)) * exp (-w * (t (c+1) - t c)))
      + exp (-w * (t (c+1) - t c)) * exp (-w * (t (c+1) - t c)) * (v c - e c * e c) * (1 - (v c - e c * e c) / v c)
      + e (c+1) * e (c+1)

noncomputable def m (y : ℕ → ℝ) : ℕ → ℝ
  | 0 => 0
  | c + 1 => exp (-w * (t (c+1) - t c)) * m y c
      + exp (-w * (t (c+1) - t c)) * (v w s2 t e c - e c * e c) / v w s2 t e c * (y c - m y c)

theorem K_ge {i j : ℕ} (ht : Monotone t) (h : j ≤ i) :
    K w s2 t i j = s2 / (2 * w) * exp (-w * (t i - t j)) := by
  have : t j ≤ t i := ht h
  rw [K, abs_of_nonneg (by linarith)]

theorem K_le {i j : ℕ} (ht : Monotone t) (h : i ≤ j) :
    K w s2 t i j = s2 / (2 * w) * exp (-w * (t j - t i)) := by
  have : t i ≤ t j := ht h
  rw [K, abs_of_nonpos (by linarith)]; ring_nf

theorem columns (n : ℕ) (ht : Monotone t) (hv : ∀ c, c < n → v w s2 t e c ≠ 0) (c : ℕ) (hcn : c ≤ n) :
    (∀ j, j < c → m w s2 t e (fun l => S w s2 t e l j) c = K w s2 t c j) ∧
    (∀ j, c ≤ j → m w s2 t e (fun l => S w s2 t e l j) c
        = exp (-w * (t j - t c)) * (s2 / (2 * w) - (v w s2 t e c - e c * e c))) := by
  induction c with
  | zero =>
    refine ⟨fun j h => absurd h (Nat.not_lt_zero j), fun j _ => ?_⟩
    simp [m, v]
  | succ c ih =>
    obtain ⟨ihp, ihf⟩ := ih (by omega)
    have hvc := hv c (by omega)
    refine ⟨fun j hj => ?_, fun j hj => ?_⟩
    · rcases Nat.lt_succ_iff_lt_or_eq.mp hj with h | h
      · have h1 := ihp j h
        have hS : S w s2 t e c j = K w s2 t c j := by simp [S, Nat.ne_of_gt h]
        rw [m, h1, hS, K_ge w s2 t ht (le_of_lt h), K_ge w s2 t ht (le_of_lt hj)]
        have : exp (-w * (t (c+1) - t j)) = exp (-w * (t (c+1) - t c)) * exp (-w * (t c - t j)) := by
          rw [← exp_add]; ring_nf
        rw [this]; ring
      · subst h
        have h1 := ihf j le_rfl
        have hS : S w s2 t e j j = s2 / (2 * w) + e j * e j := by simp [S, K]
        rw [m, h1, hS, K_ge w s2 t ht (Nat.le_succ j)]
        simp only [sub_self, mul_zero, exp_zero, one_mul]
        field_simp
        ring
    · have h1 := ihf j (by omega)
      have hS : S w s2 t e c j = K w s2 t c j := by
        have : c ≠ j := by omega
        simp [S, this]
      rw [m, h1, hS, K_le w s2 t ht (by omega), v]
      have : exp (-w * (t j - t c)) = exp (-w * (t (c+1) - t c)) * exp (-w * (t j - t (c+1))) := by
        rw [← exp_add]; ring_nf
      rw [this]
      field_simp
      ring

/-- weight of observation l in the predicted mean of observation c -/
noncomputable def a (c l : ℕ) : ℝ := m w s2 t e (fun k => if k = l then 1 else 0) c

theorem linear (y : ℕ → ℝ) (c : ℕ) : m w s2 t e y c = ∑ l ∈ range c, a w s2 t e c l * y l := by
  induction c with
  | zero => simp [m]
  | succ c ih =>
    have h0 : ∀ c l, c ≤ l → a w s2 t e c l = 0 := by
      intro c l; induction c with
      | zero => intro _; simp [a, m]
      | succ c ih => intro h; have := ih (by omega); simp only [a] at this ⊢; rw [m, this]; simp [show c ≠ l by omega]
    have h1 : ∀ l, l < c → a w s2 t e (c+1) l = (exp (-w * (t (c+1) - t c)) - exp (-w * (t (c+1) - t c)) * (v w s2 t e c - e c * e c) / v w s2 t e c) * a w s2 t e c l := by
      intro l hl
      simp only [a]; rw [m, if_neg (by omega)]; ring
    have h2 : a w s2 t e (c+1) c = exp (-w * (t (c+1) - t c)) * (v w s2 t e c - e c * e c) / v w s2 t e c := by
      have := h0 c c le_rfl
      simp only [a] at this ⊢; rw [m, this]; simp
    have h3 : ∑ l ∈ range c, a w s2 t e (c+1) l * y l = (exp (-w * (t (c+1) - t c)) - exp (-w * (t (c+1) - t c)) * (v w s2 t e c - e c * e c) / v w s2 t e c) * ∑ l ∈ range c, a w s2 t e c l * y l := by
      rw [mul_sum]
      exact sum_congr rfl (fun l hl => by rw [h1 l (mem_range.mp hl), mul_assoc])
    rw [sum_range_succ, h2, m, ih, h3]
    ring

/-- Normal equations: the weights of the filter mean solve  sum_l a(c,l) S(l,j) = K(c,j), j < c; the filter
variance is the variance of the observation minus the variance explained. -/
theorem kalman_mean_var (n : ℕ) (ht : Monotone t) (hv : ∀ c, c < n → v w s2 t e c ≠ 0) (c : ℕ) (hcn : c ≤ n) :
    (∀ j, j < c → ∑ l ∈ range c, a w s2 t e c l * S w s2 t e l j = S w s2 t e c j) ∧
    v w s2 t e c = S w s2 t e c c - ∑ l ∈ range c, a w s2 t e c l * S w s2 t e l c := by
  obtain ⟨hp, hf⟩ := columns w s2 t e n ht hv c hcn
  refine ⟨fun j hj => ?_, ?_⟩
  · rw [← linear w s2 t e (fun l => S w s2 t e l j) c, hp j hj]; simp [S, Nat.ne_of_gt hj]
  · rw [← linear w s2 t e (fun l => S w s2 t e l c) c, hf c le_rfl]; simp [S, K]

/-- The filter is the innovations form of the Gaussian vector of observations. -/
theorem innov (n : ℕ) (ht : Monotone t) (hv : ∀ c, c < n → v w s2 t e c ≠ 0) :
    Cond.Innov n (S w s2 t e) (a w s2 t e) (v w s2 t e) where
  symm := fun i j => by simp only [S, K]; rw [abs_sub_comm]; congr 1; by_cases h : i = j <;> simp [h, eq_comm]
  normal := fun c hc j hj => (kalman_mean_var w s2 t e n ht hv c hc.le).1 j hj
  expl := fun c hc => (kalman_mean_var w s2 t e n ht hv c hc.le).2

/-- F01: the filter mean is the Gaussian conditional mean, the filter variance the conditional variance: with M the
covariance matrix of the observations before c and k their covariances with observation c,
mean = k . M^-1 y and variance = S(c,c) - k . M^-1 k. -/
theorem kalman_is_conditioning (n : ℕ) (ht : Monotone t) (hv : ∀ c, c < n → v w s2 t e c ≠ 0) (c : ℕ) (hcn : c ≤ n) (y : ℕ → ℝ)
    (M : Matrix (Fin c) (Fin c) ℝ) (hM : M = Matrix.of fun i j : Fin c => S w s2 t e i j)
    (k : Fin c → ℝ) (hk : k = fun j : Fin c => S w s2 t e c j) :
    IsUnit M.det ∧
    m w s2 t e y c = k ⬝ᵥ (M⁻¹.mulVec fun j : Fin c => y j) ∧
    v w s2 t e c = S w s2 t e c c - k ⬝ᵥ (M⁻¹.mulVec k) := by
  obtain ⟨hn, hvar⟩ := kalman_mean_var w s2 t e n ht hv c hcn
  have hi := innov w s2 t e c ht (fun d hd => hv d (by omega))
  obtain ⟨_, _, _, hdet, _⟩ := Cond.fact hi (fun d hd => hv d (by omega)) M _ _ hM rfl rfl
  have ha : Matrix.vecMul (fun l : Fin c => a w s2 t e c l) M = k := by
    funext j
    rw [hM, hk]; simp only [Matrix.vecMul, dotProduct, Matrix.of_apply]
    rw [← hn j j.2, Finset.sum_range]
  have hw : (fun l : Fin c => a w s2 t e c l) = Matrix.vecMul k M⁻¹ := by
    rw [← ha, Matrix.vecMul_vecMul, Matrix.mul_nonsing_inv _ hdet, Matrix.vecMul_one]
  refine ⟨hdet, ?_, ?_⟩
  · rw [linear, Finset.sum_range, Matrix.dotProduct_mulVec, ← hw]; rfl
  · rw [hvar, Finset.sum_range, Matrix.dotProduct_mulVec, ← hw]
    congr 1
    exact Finset.sum_congr rfl (fun l _ => by rw [hk, hi.symm])

/-- M01: product of the variances and sum of the squared standardised innovations are determinant and quadratic form
of the covariance matrix of all observations. -/
theorem kalman_density (n : ℕ) (ht : Monotone t) (hv : ∀ c, c < n → v w s2 t e c ≠ 0) (y : ℕ → ℝ)
    (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = Matrix.of fun i j : Fin n => S w s2 t e i j) :
    (∑ c ∈ range n, (y c - m w s2 t e y c) * (y c - m w s2 t e y c) / v w s2 t e c
      = (fun i : Fin n => y i) ⬝ᵥ (M⁻¹.mulVec fun i : Fin n => y i)) ∧
    ∏ c ∈ range n, v w s2 t e c = M.det := by
  obtain ⟨h1, h2⟩ := Cond.density (innov w s2 t e n ht hv) hv M hM y
  refine ⟨?_, h2⟩
  rw [← h1]
  exact Finset.sum_congr rfl (fun c _ => by rw [Cond.inn, ← linear])

end Car1
