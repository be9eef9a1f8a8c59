import Mathlib.Tactic
import Mathlib.Analysis.SpecialFunctions.Exp
import Mathlib.Analysis.Complex.Exponential
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Cond

open Finset ComplexConjugate

namespace Carp
variable {p : ℕ} (om b : Fin p → ℂ) (Q : Fin p → Fin p → ℂ) (t e : ℕ → ℝ)

noncomputable def rho (i : Fin p) (d : ℝ) : ℂ := Complex.exp (om i * d)

/-- b P b^H -/
noncomputable def quad (P : Fin p → Fin p → ℂ) : ℂ := ∑ i, ∑ j, b i * P i j * conj (b j)
noncomputable def gain (P : Fin p → Fin p → ℂ) (v : ℝ) (i : Fin p) : ℂ := (∑ j, P i j * conj (b j)) / v
noncomputable def var (P : Fin p → Fin p → ℂ) (s : ℝ) : ℝ := (quad b P).re + s * s
noncomputable def obs (x : Fin p → ℂ) : ℝ := (∑ i, b i * x i).re

/-- predicted state covariance before observation c -/
noncomputable def P : ℕ → Fin p → Fin p → ℂ
  | 0 => Q
  | c + 1 => fun i j => rho om i (t (c+1) - t c) * conj (rho om j (t (c+1) - t c)) *
      (P c i j - var b (P c) (e c) * gain b (P c) (var b (P c) (e c)) i * conj (gain b (P c) (var b (P c) (e c)) j) - Q i j)
      + Q i j

/-- variance of the prediction of observation c -/
noncomputable def v (c : ℕ) : ℝ := var b (P om b Q t e c) (e c)

/-- predicted state before observation c -/
noncomputable def X (y : ℕ → ℝ) : ℕ → Fin p → ℂ
  | 0 => fun _ => 0
  | c + 1 => fun i => rho om i (t (c+1) - t c) *
      (X y c i + gain b (P om b Q t e c) (v om b Q t e c) i * (y c - obs b (X y c) : ℝ))

/-- prediction of observation c -/
noncomputable def m (y : ℕ → ℝ) (c : ℕ) : ℝ := obs b (X om b Q t e y c)

/-- autocovariance of the process at a non-negative lag -/
noncomputable def R (d : ℝ) : ℝ := (∑ i, ∑ j, b i * rho om i d * Q i j * conj (b j)).re
noncomputable def K (i j : ℕ) : ℝ := R om b Q |t i - t j|
noncomputable def S (i j : ℕ) : ℝ := K om b Q t i j + if i = j then e i * e i else 0

structure Pairs where
  herm : ∀ i j, Q j i = conj (Q i j)
  perm : Fin p ≃ Fin p
  om_perm : ∀ i, om (perm i) = conj (om i)
  b_perm : ∀ i, b (perm i) = conj (b i)
  Q_perm : ∀ i j, Q (perm i) (perm j) = conj (Q i j)

variable {om b Q}

theorem rho_perm (h : Pairs om b Q) (i : Fin p) (d : ℝ) : rho om (h.perm i) d = conj (rho om i d) := by
  simp [rho, h.om_perm, ← Complex.exp_conj]

theorem P_herm (h : Pairs om b Q) (c : ℕ) : ∀ i j, P om b Q t e c j i = conj (P om b Q t e c i j) := by
  induction c with
  | zero => exact h.herm
  | succ c ih =>
    intro i j
    simp only [P, map_add, map_mul, map_sub, Complex.conj_conj, Complex.conj_ofReal]
    rw [ih i j, h.herm i j]; ring

theorem P_perm (h : Pairs om b Q) (c : ℕ) :
    ∀ i j, P om b Q t e c (h.perm i) (h.perm j) = conj (P om b Q t e c i j) := by
  induction c with
  | zero => exact h.Q_perm
  | succ c ih =>
    have hg : ∀ s i, gain b (P om b Q t e c) s (h.perm i) = conj (gain b (P om b Q t e c) s i) := by
      intro s i
      simp only [gain, map_div₀, map_sum, map_mul, Complex.conj_conj, Complex.conj_ofReal]
      congr 1
      rw [← Equiv.sum_comp h.perm]
      exact sum_congr rfl (fun j _ => by rw [ih i j, h.b_perm, Complex.conj_conj])
    intro i j
    simp only [P, map_add, map_mul, map_sub, Complex.conj_conj, Complex.conj_ofReal]
    rw [ih i j, h.Q_perm, rho_perm h, rho_perm h, hg, hg]; simp

/-- a sum over pairs of conjugate roots is real -/
theorem real_of_perm (h : Pairs om b Q) (A : Fin p → Fin p → ℂ) (hA : ∀ i j, A (h.perm i) (h.perm j) = conj (A i j)) (d : ℝ) :
    (((∑ i, ∑ j, b i * A i j * conj (b j * rho om j d)).re : ℝ) : ℂ) = ∑ i, ∑ j, b i * A i j * conj (b j * rho om j d) := by
  rw [← Complex.conj_eq_iff_re]
  simp only [map_sum, map_mul, Complex.conj_conj]
  rw [← Equiv.sum_comp h.perm]
  refine sum_congr rfl (fun i _ => ?_)
  rw [← Equiv.sum_comp h.perm]
  refine sum_congr rfl (fun j _ => ?_)
  rw [hA, h.b_perm, h.b_perm, rho_perm h]; simp

theorem R_eq (h : Pairs om b Q) (d : ℝ) :
    ((R om b Q d : ℝ) : ℂ) = ∑ i, ∑ j, b i * Q i j * conj (b j * rho om j d) := by
  rw [← real_of_perm h Q h.Q_perm d, R]
  congr 1
  have : (∑ i, ∑ j, b i * rho om i d * Q i j * conj (b j)) = conj (∑ i, ∑ j, b i * Q i j * conj (b j * rho om j d)) := by
    simp only [map_sum, map_mul, Complex.conj_conj]
    rw [sum_comm]
    refine sum_congr rfl (fun i _ => sum_congr rfl (fun j _ => ?_))
    rw [h.herm i j]; ring
  rw [this, Complex.conj_re]

theorem K_ge {i j : ℕ} (ht : Monotone t) (h : j ≤ i) : K om b Q t i j = R om b Q (t i - t j) := by
  have : t j ≤ t i := ht h
  rw [K, abs_of_nonneg (by linarith)]

theorem K_le {i j : ℕ} (ht : Monotone t) (h : i ≤ j) : K om b Q t i j = R om b Q (t j - t i) := by
  have : t i ≤ t j := ht h
  rw [K, abs_of_nonpos (by linarith)]; ring_nf

theorem quad_eq (h : Pairs om b Q) (c : ℕ) :
    ((v om b Q t e c : ℝ) : ℂ) = (∑ i, ∑ j, b i * P om b Q t e c i j * conj (b j)) + e c * e c := by
  have := real_of_perm h (P om b Q t e c) (P_perm t e h c) 0
  simp only [rho, Complex.ofReal_zero, mul_zero, Complex.exp_zero, mul_one] at this
  rw [v, var, quad]; push_cast; rw [this]

theorem rho_add (i : Fin p) (a c : ℝ) : rho om i (a + c) = rho om i a * rho om i c := by
  simp [rho, ← Complex.exp_add, mul_add]

theorem columns (n : ℕ) (h : Pairs om b Q) (ht : Monotone t) (hv : ∀ c, c < n → v om b Q t e c ≠ 0) (c : ℕ) (hcn : c ≤ n) :
    (∀ j, j < c → ∀ i, X om b Q t e (fun l => S om b Q t e l j) c i = rho om i (t c - t j) * ∑ l, Q i l * conj (b l)) ∧
    (∀ j, c ≤ j → ∀ i, X om b Q t e (fun l => S om b Q t e l j) c i
        = ∑ l, (Q i l - P om b Q t e c i l) * conj (b l * rho om l (t j - t c))) := by
  induction c with
  | zero =>
    refine ⟨fun j h => absurd h (Nat.not_lt_zero j), fun j _ i => ?_⟩
    simp [X, P]
  | succ c ih =>
    obtain ⟨ihp, ihf⟩ := ih (by omega)
    have hvc : (v om b Q t e c : ℂ) ≠ 0 := by exact_mod_cast hv c (by omega)
    -- what the innovation of observation j is when the data are a covariance column
    have hin : ∀ j, c ≤ j → ((S om b Q t e c j - obs b (X om b Q t e (fun l => S om b Q t e l j) c) : ℝ) : ℂ)
        = (∑ k, ∑ l, b k * P om b Q t e c k l * conj (b l * rho om l (t j - t c))) + if c = j then (e c * e c : ℂ) else 0 := by
      intro j hj
      have hX : (∑ i, b i * X om b Q t e (fun l => S om b Q t e l j) c i)
          = (∑ i, ∑ l, b i * Q i l * conj (b l * rho om l (t j - t c))) - ∑ i, ∑ l, b i * P om b Q t e c i l * conj (b l * rho om l (t j - t c)) := by
        rw [← sum_sub_distrib]
        refine sum_congr rfl (fun i _ => ?_)
        rw [ihf j hj i, mul_sum, ← sum_sub_distrib]
        exact sum_congr rfl (fun l _ => by ring)
      rw [obs, hX, Complex.sub_re, ← R_eq h, Complex.ofReal_re, S, K_le t ht hj]
      rw [← real_of_perm h (P om b Q t e c) (P_perm t e h c)]
      generalize (∑ i, ∑ l, b i * P om b Q t e c i l * conj (b l * rho om l (t j - t c))).re = z
      by_cases hc : c = j
      · simp only [hc, if_true]; push_cast; ring
      · simp only [hc, if_false]; push_cast; ring
    refine ⟨fun j hj i => ?_, fun j hj i => ?_⟩
    · rcases Nat.lt_succ_iff_lt_or_eq.mp hj with hlt | heq
      · have h1 := ihp j hlt
        have hS : S om b Q t e c j = obs b (X om b Q t e (fun l => S om b Q t e l j) c) := by
          have hSK : S om b Q t e c j = K om b Q t c j := by simp [S, Nat.ne_of_gt hlt]
          rw [hSK, K_ge t ht hlt.le, R, obs]
          congr 1
          refine sum_congr rfl (fun k _ => ?_)
          rw [h1 k, mul_sum, mul_sum]
          exact sum_congr rfl (fun l _ => by ring)
        simp only [X]
        rw [← hS, sub_self, h1 i, show t (c+1) - t j = (t (c+1) - t c) + (t c - t j) by ring, rho_add]
        simp; ring
      · subst heq
        have h1 := ihf j le_rfl i
        have h2 := hin j le_rfl
        simp only [X]
        rw [h2, h1]
        simp only [sub_self, rho, Complex.ofReal_zero, mul_zero, Complex.exp_zero, mul_one, if_true]
        rw [← quad_eq t e h j, gain, div_mul_cancel₀ _ hvc, ← sum_add_distrib]
        congr 1
        exact sum_congr rfl (fun l _ => by ring)
    · have hcj : c ≤ j := by omega
      have h1 := ihf j hcj i
      have h2 := hin j hcj
      rw [if_neg (by omega : ¬ c = j), add_zero] at h2
      simp only [X]
      rw [h2, h1]
      have hr : ∀ l, rho om l (t j - t c) = rho om l (t (c+1) - t c) * rho om l (t j - t (c+1)) := by
        intro l; rw [← rho_add]; ring_nf
      -- the gain seen from the other side
      have hg : ∀ l, (v om b Q t e c : ℂ) * conj (gain b (P om b Q t e c) (v om b Q t e c) l) = ∑ k, b k * P om b Q t e c k l := by
        intro l
        simp only [gain, map_div₀, map_sum, map_mul, Complex.conj_conj, Complex.conj_ofReal]
        rw [mul_div_cancel₀ _ hvc]
        exact sum_congr rfl (fun k _ => by rw [← P_herm t e h c l k]; ring)
      have hs : (∑ k, ∑ l, b k * P om b Q t e c k l * conj (b l * rho om l (t j - t c)))
          = ∑ l, (v om b Q t e c : ℂ) * conj (gain b (P om b Q t e c) (v om b Q t e c) l) * conj (b l * rho om l (t j - t c)) := by
        rw [sum_comm]
        refine sum_congr rfl (fun l _ => ?_)
        rw [hg l, sum_mul]
      rw [hs, mul_sum, ← sum_add_distrib, mul_sum]
      refine sum_congr rfl (fun l _ => ?_)
      simp only [P, ← v.eq_1, hr l, map_mul]
      ring

/-- weight of observation l in the prediction of observation c -/
noncomputable def a (om b : Fin p → ℂ) (Q : Fin p → Fin p → ℂ) (c l : ℕ) : ℝ :=
  m om b Q t e (fun k => if k = l then 1 else 0) c

theorem X_linear (y : ℕ → ℝ) (c : ℕ) (i : Fin p) :
    X om b Q t e y c i = ∑ l ∈ range c, X om b Q t e (fun k => if k = l then 1 else 0) c i * (y l : ℂ) := by
  have hobs : ∀ (f : ℕ → Fin p → ℂ) (z : ℕ → ℝ) (n : ℕ),
      obs b (fun i => ∑ l ∈ range n, f l i * (z l : ℂ)) = ∑ l ∈ range n, obs b (f l) * z l := by
    intro f z n
    simp only [obs, mul_sum]
    rw [sum_comm, Complex.re_sum]
    refine sum_congr rfl (fun l _ => ?_)
    rw [show (∑ i, b i * (f l i * (z l : ℂ))) = (∑ i, b i * f l i) * (z l : ℂ) by
      rw [sum_mul]; exact sum_congr rfl (fun i _ => by ring)]
    simp
  have h0 : ∀ c l, c ≤ l → X om b Q t e (fun k => if k = l then 1 else 0) c = fun _ => 0 := by
    intro c l; induction c with
    | zero => intro _; rfl
    | succ c ih =>
      intro h
      funext i
      simp only [X]; rw [ih (by omega)]; simp [obs, show c ≠ l by omega]
  induction c generalizing i with
  | zero => simp [X]
  | succ c ih =>
    have ihf : X om b Q t e y c = fun i => ∑ l ∈ range c, X om b Q t e (fun k => if k = l then 1 else 0) c i * (y l : ℂ) := funext ih
    have h2 : X om b Q t e (fun k => if k = c then 1 else 0) (c+1) i
        = rho om i (t (c+1) - t c) * gain b (P om b Q t e c) (v om b Q t e c) i := by
      simp only [X]; rw [h0 c c le_rfl]; simp [obs]
    have h1 : ∀ l, l < c → X om b Q t e (fun k => if k = l then 1 else 0) (c+1) i
        = rho om i (t (c+1) - t c) * (X om b Q t e (fun k => if k = l then 1 else 0) c i
          - gain b (P om b Q t e c) (v om b Q t e c) i * (obs b (X om b Q t e (fun k => if k = l then 1 else 0) c) : ℝ)) := by
      intro l hl
      simp only [X]; rw [if_neg (by omega)]; push_cast; ring
    rw [sum_range_succ, h2, sum_congr rfl (fun l hl => by rw [h1 l (mem_range.mp hl)])]
    simp only [X]
    rw [ihf, hobs]
    have h3 : ∑ l ∈ range c, rho om i (t (c+1) - t c) * (X om b Q t e (fun k => if k = l then 1 else 0) c i
          - gain b (P om b Q t e c) (v om b Q t e c) i * (obs b (X om b Q t e (fun k => if k = l then 1 else 0) c) : ℝ)) * (y l : ℂ)
        = rho om i (t (c+1) - t c) * (∑ l ∈ range c, X om b Q t e (fun k => if k = l then 1 else 0) c i * (y l : ℂ))
          - rho om i (t (c+1) - t c) * gain b (P om b Q t e c) (v om b Q t e c) i
            * ∑ l ∈ range c, (obs b (X om b Q t e (fun k => if k = l then 1 else 0) c) : ℂ) * (y l : ℂ) := by
      rw [mul_sum, mul_sum, ← sum_sub_distrib]
      exact sum_congr rfl (fun l _ => by ring)
    rw [h3]
    push_cast
    ring

theorem linear (y : ℕ → ℝ) (c : ℕ) : m om b Q t e y c = ∑ l ∈ range c, a t e om b Q c l * y l := by
  rw [m, obs]
  simp only [a, m, obs]
  rw [show (∑ i, b i * X om b Q t e y c i)
      = ∑ l ∈ range c, (∑ i, b i * X om b Q t e (fun k => if k = l then 1 else 0) c i) * (y l : ℂ) by
    simp only [sum_mul]
    rw [sum_comm]
    refine sum_congr rfl (fun i _ => ?_)
    rw [X_linear t e y c i, mul_sum]
    exact sum_congr rfl (fun l _ => by ring)]
  rw [Complex.re_sum]
  exact sum_congr rfl (fun l _ => by simp)

/-- Normal equations and explained variance. -/
theorem kalman_mean_var (n : ℕ) (h : Pairs om b Q) (ht : Monotone t) (hv : ∀ c, c < n → v om b Q t e c ≠ 0) (c : ℕ) (hcn : c ≤ n) :
    (∀ j, j < c → ∑ l ∈ range c, a t e om b Q c l * S om b Q t e l j = S om b Q t e c j) ∧
    v om b Q t e c = S om b Q t e c c - ∑ l ∈ range c, a t e om b Q c l * S om b Q t e l c := by
  obtain ⟨hp, hf⟩ := columns t e n h ht hv c hcn
  refine ⟨fun j hj => ?_, ?_⟩
  · rw [← linear t e (fun l => S om b Q t e l j) c]
    have hSK : S om b Q t e c j = K om b Q t c j := by simp [S, Nat.ne_of_gt hj]
    rw [hSK, K_ge t ht hj.le, R, m, obs]
    congr 1
    refine sum_congr rfl (fun k _ => ?_)
    rw [hp j hj k, mul_sum, mul_sum]
    exact sum_congr rfl (fun l _ => by ring)
  · rw [← linear t e (fun l => S om b Q t e l c) c]
    have hX : (∑ i, b i * X om b Q t e (fun l => S om b Q t e l c) c i)
        = (∑ i, ∑ l, b i * Q i l * conj (b l)) - quad b (P om b Q t e c) := by
      rw [quad, ← sum_sub_distrib]
      refine sum_congr rfl (fun i _ => ?_)
      rw [hf c le_rfl i, mul_sum, ← sum_sub_distrib]
      exact sum_congr rfl (fun l _ => by simp [rho]; ring)
    rw [m, obs, hX]
    simp [S, K, R, v, var, rho]
    ring

/-- The filter is the innovations form of the Gaussian vector of observations. -/
theorem innov (n : ℕ) (h : Pairs om b Q) (ht : Monotone t) (hv : ∀ c, c < n → v om b Q t e c ≠ 0) :
    Cond.Innov n (S om b Q t e) (a t e om b Q) (v om b Q t e) where
  symm := fun i j => by simp only [S, K]; rw [abs_sub_comm]; congr 1; by_cases h : i = j <;> simp [h, eq_comm]
  normal := fun c hc j hj => (kalman_mean_var t e n h ht hv c hc.le).1 j hj
  expl := fun c hc => (kalman_mean_var t e n h ht hv c hc.le).2

/-- F02: the filter mean is the Gaussian conditional mean, the filter variance the conditional variance: with M the
covariance matrix of the observations before c and k their covariances with observation c,
mean = k . M^-1 y and variance = S(c,c) - k . M^-1 k. -/
theorem kalman_is_conditioning (n : ℕ) (h : Pairs om b Q) (ht : Monotone t) (hv : ∀ c, c < n → v om b Q t e c ≠ 0) (c : ℕ) (hcn : c ≤ n) (y : ℕ → ℝ)
    (M : Matrix (Fin c) (Fin c) ℝ) (hM : M = Matrix.of fun i j : Fin c => S om b Q t e i j)
    (k : Fin c → ℝ) (hk : k = fun j : Fin c => S om b Q t e c j) :
    IsUnit M.det ∧
    m om b Q t e y c = k ⬝ᵥ (M⁻¹.mulVec fun j : Fin c => y j) ∧
    v om b Q t e c = S om b Q t e c c - k ⬝ᵥ (M⁻¹.mulVec k) := by
  obtain ⟨hn, hvar⟩ := kalman_mean_var t e n h ht hv c hcn
  have hi := innov t e c h ht (fun d hd => hv d (by omega))
  obtain ⟨_, _, _, hdet, _⟩ := Cond.fact hi (fun d hd => hv d (by omega)) M _ _ hM rfl rfl
  have ha : Matrix.vecMul (fun l : Fin c => a t e om b Q c l) M = k := by
    funext j
    rw [hM, hk]; simp only [Matrix.vecMul, dotProduct, Matrix.of_apply]
    rw [← hn j j.2, Finset.sum_range]
  have hw : (fun l : Fin c => a t e om b Q c l) = Matrix.vecMul k M⁻¹ := by
    rw [← ha, Matrix.vecMul_vecMul, Matrix.mul_nonsing_inv _ hdet, Matrix.vecMul_one]
  refine ⟨hdet, ?_, ?_⟩
  · rw [linear, Finset.sum_range, Matrix.dotProduct_mulVec, ← hw]; rfl
  · rw [hvar, Finset.sum_range, Matrix.dotProduct_mulVec, ← hw]
    congr 1
    exact Finset.sum_congr rfl (fun l _ => by rw [hk, hi.symm])

/-- M01 (p > 1): product of the variances and sum of the squared standardised innovations are determinant and quadratic form
of the covariance matrix of all observations. -/
theorem kalman_density (n : ℕ) (h : Pairs om b Q) (ht : Monotone t) (hv : ∀ c, c < n → v om b Q t e c ≠ 0) (y : ℕ → ℝ)
    (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = Matrix.of fun i j : Fin n => S om b Q t e i j) :
    (∑ c ∈ range n, (y c - m om b Q t e y c) * (y c - m om b Q t e y c) / v om b Q t e c
      = (fun i : Fin n => y i) ⬝ᵥ (M⁻¹.mulVec fun i : Fin n => y i)) ∧
    ∏ c ∈ range n, v om b Q t e c = M.det := by
  obtain ⟨h1, h2⟩ := Cond.density (innov t e n h ht hv) hv M hM y
  refine ⟨?_, h2⟩
  rw [← h1]
  exact Finset.sum_congr rfl (fun c _ => by rw [Cond.inn, ← linear])

end Carp
