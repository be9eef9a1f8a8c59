import Mathlib.Tactic
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Acov

open Finset ComplexConjugate

namespace Carp
variable {p : ℕ} {om b : Fin p → ℂ} {Q : Fin p → Fin p → ℂ} (t e : ℕ → ℝ)

/-- non-negative quadratic form -/
def PSD (A : Fin p → Fin p → ℂ) : Prop := ∀ x : Fin p → ℂ, 0 ≤ (quad x A).re

theorem quad_add (x : Fin p → ℂ) (A B : Fin p → Fin p → ℂ) : quad x (fun i j => A i j + B i j) = quad x A + quad x B := by
  simp only [quad, ← sum_add_distrib]
  exact sum_congr rfl (fun i _ => sum_congr rfl (fun j _ => by ring))

theorem quad_rho (x r : Fin p → ℂ) (A : Fin p → Fin p → ℂ) :
    quad x (fun i j => r i * conj (r j) * A i j) = quad (fun i => x i * r i) A := by
  simp only [quad, map_mul]
  exact sum_congr rfl (fun i _ => sum_congr rfl (fun j _ => by ring))

theorem quad_outer (x g : Fin p → ℂ) (s : ℂ) :
    quad x (fun i j => s * g i * conj (g j)) = s * ((∑ i, x i * g i) * conj (∑ i, x i * g i)) := by
  rw [map_sum, sum_mul_sum, mul_sum, quad]
  refine sum_congr rfl (fun i _ => ?_)
  rw [mul_sum]
  exact sum_congr rfl (fun j _ => by rw [map_mul]; ring)

theorem quad_sub (x z : Fin p → ℂ) (A : Fin p → Fin p → ℂ) (hA : ∀ i j, A j i = conj (A i j)) (l : ℂ) :
    quad (fun i => x i - l * z i) A = quad x A - l * conj (∑ i, x i * ∑ j, A i j * conj (z j))
      - conj l * (∑ i, x i * ∑ j, A i j * conj (z j)) + l * conj l * quad z A := by
  have h1 : conj (∑ i, x i * ∑ j, A i j * conj (z j)) = ∑ i, ∑ j, z i * A i j * conj (x j) := by
    rw [sum_comm, map_sum]
    refine sum_congr rfl (fun i _ => ?_)
    rw [map_mul, map_sum, mul_sum]
    refine sum_congr rfl (fun j _ => ?_)
    rw [map_mul, Complex.conj_conj, ← hA]; ring
  rw [h1]
  simp only [quad, mul_sum, map_sub, map_mul]
  simp only [← sum_sub_distrib, ← sum_add_distrib]
  exact sum_congr rfl (fun i _ => sum_congr rfl (fun j _ => by ring))

/-- conditioning on one observation keeps the covariance non-negative -/
theorem psd_update (A : Fin p → Fin p → ℂ) (hA : ∀ i j, A j i = conj (A i j)) (h : PSD A) (s : ℝ) :
    PSD (fun i j => A i j - var b A s * gain b A (var b A s) i * conj (gain b A (var b A s) j)) := by
  intro x
  set V := var b A s with hV
  have hV0 : 0 ≤ V := add_nonneg (h b) (mul_self_nonneg _)
  have hq : quad x (fun i j => A i j - V * gain b A V i * conj (gain b A V j)) =
      quad x A - V * ((∑ i, x i * gain b A V i) * conj (∑ i, x i * gain b A V i)) := by
    have := quad_add x A (fun i j => (-(V:ℂ)) * gain b A V i * conj (gain b A V j))
    rw [quad_outer] at this
    rw [show (fun i j => A i j - V * gain b A V i * conj (gain b A V j)) = (fun i j => A i j + (-(V:ℂ)) * gain b A V i * conj (gain b A V j)) by
      funext i j; ring, this]; ring
  rw [hq]
  rcases hV0.eq_or_lt with h0 | h0
  · rw [← h0]; simpa using h x
  have hg : ∑ i, x i * gain b A V i = (∑ i, x i * ∑ j, A i j * conj (b j)) / V := by
    rw [sum_div]; exact sum_congr rfl (fun i _ => by rw [gain, mul_div_assoc])
  rw [hg]
  have hs := quad_sub x b A hA ((∑ i, x i * ∑ j, A i j * conj (b j)) / V)
  generalize (∑ i, x i * ∑ j, A i j * conj (b j)) = k at *
  have hp := h (fun i => x i - k / V * b i)
  rw [hs] at hp
  have hVc : (V : ℂ) ≠ 0 := by exact_mod_cast h0.ne'
  have e1 : (quad x A - k / V * conj k - conj (k / V) * k + k / V * conj (k / V) * quad b A).re
      = (quad x A).re - 2 * (Complex.normSq k / V) + Complex.normSq k / V ^ 2 * (quad b A).re := by
    have h1 : k / (V:ℂ) * conj k = ((Complex.normSq k / V : ℝ) : ℂ) := by
      push_cast; rw [Complex.normSq_eq_conj_mul_self]; ring
    have h2 : conj (k / (V:ℂ)) * k = ((Complex.normSq k / V : ℝ) : ℂ) := by
      push_cast; rw [Complex.normSq_eq_conj_mul_self, map_div₀, Complex.conj_ofReal]; ring
    have h3 : k / (V:ℂ) * conj (k / (V:ℂ)) = ((Complex.normSq k / V ^ 2 : ℝ) : ℂ) := by
      push_cast; rw [Complex.normSq_eq_conj_mul_self, map_div₀, Complex.conj_ofReal]; field_simp
    rw [h1, h2, h3]; simp only [Complex.add_re, Complex.sub_re, Complex.ofReal_re, Complex.re_ofReal_mul]; ring
  rw [e1] at hp
  have e2 : (quad x A - V * (k / V * conj (k / V))).re = (quad x A).re - Complex.normSq k / V := by
    have h3 : (V:ℂ) * (k / (V:ℂ) * conj (k / (V:ℂ))) = ((Complex.normSq k / V : ℝ) : ℂ) := by
      push_cast; rw [Complex.normSq_eq_conj_mul_self, map_div₀, Complex.conj_ofReal]; field_simp
    rw [h3, Complex.sub_re, Complex.ofReal_re]
  rw [e2]
  have hb : (quad b A).re ≤ V := by rw [hV, var]; nlinarith [mul_self_nonneg s]
  have hk := Complex.normSq_nonneg k
  have : Complex.normSq k / V ^ 2 * (quad b A).re ≤ Complex.normSq k / V := by
    calc Complex.normSq k / V ^ 2 * (quad b A).re ≤ Complex.normSq k / V ^ 2 * V :=
          mul_le_mul_of_nonneg_left hb (by positivity)
      _ = Complex.normSq k / V := by field_simp
  linarith

/-- The predicted covariances of the filter stay non-negative. -/
theorem psd (h : Pairs om b Q) (hQ : PSD Q) (hD : ∀ d : ℝ, 0 ≤ d → PSD (fun i j => Q i j - rho om i d * conj (rho om j d) * Q i j))
    (ht : Monotone t) (c : ℕ) : PSD (P om b Q t e c) := by
  induction c with
  | zero => exact hQ
  | succ c ih =>
    intro x
    have h1 := psd_update (b := b) _ (P_herm t e h c) ih (e c)
    have h2 := hD (t (c+1) - t c) (by have := ht (Nat.le_succ c); simp at this; linarith)
    generalize hd : t (c+1) - t c = d at *
    have : P om b Q t e (c+1) = fun i j => rho om i d * conj (rho om j d) *
        (P om b Q t e c i j - var b (P om b Q t e c) (e c) * gain b (P om b Q t e c) (var b (P om b Q t e c) (e c)) i * conj (gain b (P om b Q t e c) (var b (P om b Q t e c) (e c)) j))
        + (Q i j - rho om i d * conj (rho om j d) * Q i j) := by
      funext i j; simp only [P]; rw [hd]; ring
    rw [this, quad_add, quad_rho (r := fun i => rho om i d)]
    exact add_nonneg (h1 _) (h2 x)

/-- F02, F04, M01: observations with an error have a positive predicted variance. -/
theorem pos (h : Pairs om b Q) (hQ : PSD Q) (hD : ∀ d : ℝ, 0 ≤ d → PSD (fun i j => Q i j - rho om i d * conj (rho om j d) * Q i j))
    (ht : Monotone t) (c : ℕ) (he : e c ≠ 0) : 0 < v om b Q t e c := by
  have := psd t e h hQ hD ht c b
  have := mul_self_pos.mpr he
  rw [v, var]; linarith

end Carp

namespace Acov
variable {p : ℕ} {om : Fin p → ℂ}

/-- growth of the state covariance over a lag: an integral of squares -/
theorem growth {J : Fin p → ℂ} (hneg : ∀ i, (om i).re < 0) (s2 d : ℝ) (x : Fin p → ℂ) :
    Carp.quad x (fun i j => SV om J s2 i j - Carp.rho om i d * conj (Carp.rho om j d) * SV om J s2 i j)
      = ((s2 * ∫ s in (0:ℝ)..d, Complex.normSq (∑ i, x i * J i * Complex.exp (om i * s)) : ℝ) : ℂ) := by
  have hne : ∀ i j, om i + conj (om j) ≠ 0 := by
    intro i j h
    have := congrArg Complex.re h
    have h1 := hneg i; have h2 := hneg j
    simp at this; linarith
  have h1 : ∀ s : ℝ, ((Complex.normSq (∑ i, x i * J i * Complex.exp (om i * s)) : ℝ) : ℂ) =
      ∑ i, ∑ j, x i * J i * conj (x j * J j) * Complex.exp ((om i + conj (om j)) * s) := by
    intro s
    rw [Complex.normSq_eq_conj_mul_self, mul_comm, map_sum, sum_mul_sum]
    refine sum_congr rfl (fun i _ => sum_congr rfl (fun j _ => ?_))
    rw [map_mul, ← Complex.exp_conj, map_mul conj (om j), Complex.conj_ofReal, add_mul, Complex.exp_add]; ring
  push_cast
  rw [← intervalIntegral.integral_ofReal]
  simp_rw [h1]
  rw [intervalIntegral.integral_finsetSum (fun i _ => by apply Continuous.intervalIntegrable; fun_prop), mul_sum]
  rw [Carp.quad]
  refine sum_congr rfl (fun i _ => ?_)
  rw [intervalIntegral.integral_finsetSum (fun i _ => by apply Continuous.intervalIntegrable; fun_prop), mul_sum]
  refine sum_congr rfl (fun j _ => ?_)
  rw [intervalIntegral.integral_const_mul, integral_exp_mul_complex (hne i j)]
  simp only [SV, Carp.rho, ← Complex.exp_conj, map_mul, Complex.conj_ofReal, Complex.ofReal_zero, mul_zero, Complex.exp_zero]
  rw [add_mul, Complex.exp_add]
  have := hne i j
  field_simp
  ring

theorem growth_psd {J : Fin p → ℂ} (hneg : ∀ i, (om i).re < 0) (s2 : ℝ) (hs : 0 ≤ s2) (d : ℝ) (hd : 0 ≤ d) :
    Carp.PSD (fun i j => SV om J s2 i j - Carp.rho om i d * conj (Carp.rho om j d) * SV om J s2 i j) := by
  intro x
  rw [growth hneg, Complex.ofReal_re]
  exact mul_nonneg hs (intervalIntegral.integral_nonneg hd (fun s _ => Complex.normSq_nonneg _))

theorem stationary_psd {J : Fin p → ℂ} (hneg : ∀ i, (om i).re < 0) (s2 : ℝ) (hs : 0 ≤ s2) : Carp.PSD (SV om J s2) := by
  intro x
  have h1 : ∀ d : ℝ, 0 ≤ d → (Carp.quad (fun i => x i * Carp.rho om i d) (SV om J s2)).re ≤ (Carp.quad x (SV om J s2)).re := by
    intro d hd
    have h := growth_psd (J := J) hneg s2 hs d hd x
    have h2 := Carp.quad_add x (fun i j => SV om J s2 i j - Carp.rho om i d * conj (Carp.rho om j d) * SV om J s2 i j)
      (fun i j => Carp.rho om i d * conj (Carp.rho om j d) * SV om J s2 i j)
    simp only [sub_add_cancel] at h2
    rw [Carp.quad_rho (r := fun i => Carp.rho om i d)] at h2
    have h3 := congrArg Complex.re h2
    rw [Complex.add_re] at h3
    have h4 : (Carp.quad x (SV om J s2)).re = (Carp.quad x (fun i j => SV om J s2 i j)).re := rfl
    linarith
  have hr : ∀ i, Filter.Tendsto (fun d : ℝ => Carp.rho om i d) Filter.atTop (nhds 0) := by
    intro i
    rw [tendsto_zero_iff_norm_tendsto_zero]
    have : (fun d : ℝ => ‖Carp.rho om i d‖) = fun d : ℝ => Real.exp ((om i).re * d) := by
      funext d; rw [Carp.rho, Complex.norm_exp]; simp
    rw [this]
    exact Real.tendsto_exp_atBot.comp (Filter.Tendsto.const_mul_atTop_of_neg (hneg i) Filter.tendsto_id)
  have h2 : Filter.Tendsto (fun d : ℝ => (Carp.quad (fun i => x i * Carp.rho om i d) (SV om J s2)).re) Filter.atTop (nhds 0) := by
    have : Filter.Tendsto (fun d : ℝ => Carp.quad (fun i => x i * Carp.rho om i d) (SV om J s2)) Filter.atTop (nhds 0) := by
      simp only [Carp.quad]
      rw [show (0:ℂ) = ∑ i : Fin p, ∑ j : Fin p, (x i * 0) * SV om J s2 i j * conj (x j * 0) by simp]
      refine tendsto_finsetSum _ (fun i _ => tendsto_finsetSum _ (fun j _ => ?_))
      refine Filter.Tendsto.mul (((hr i).const_mul _).mul_const _) ?_
      exact (Complex.continuous_conj.tendsto _).comp ((hr j).const_mul _)
    have h := (Complex.continuous_re.tendsto _).comp this
    rw [Complex.zero_re] at h
    exact h
  refine le_of_tendsto h2 ?_
  filter_upwards [Filter.eventually_ge_atTop (0:ℝ)] with d hd using h1 d hd

/-- covariance of two observations of the process, by the residue sum -/
noncomputable def acov (om : Fin p → ℂ) (ma : ℕ → ℝ) (q : ℕ) (s2 d : ℝ) : ℝ :=
  s2 * (∑ k, (∑ m ∈ range q, (ma m : ℂ) * om k ^ m) * (∑ m ∈ range q, (ma m : ℂ) * (- om k) ^ m) * Complex.exp (om k * d)
        / (-2 * (om k).re * ∏ l, if l = k then 1 else (om l - om k) * (conj (om l) + om k))).re

/-- F02 in the terms of the property: distinct roots with negative real parts, closed under conjugation; the times in order and
every observation with an error. The filter divides by positive numbers only, its mean is k . M^-1 y and its variance
C(c,c) - k . M^-1 k with the covariances of the process given by the residue sum. -/
theorem filter (perm : Fin p ≃ Fin p) (hinj : Function.Injective om) (hneg : ∀ i, (om i).re < 0)
    (hperm : ∀ i, om (perm i) = conj (om i)) (J : Fin p → ℂ) (hJ : Loads om J) (ma : ℕ → ℝ) (s2 : ℝ) (hs : 0 ≤ s2)
    (t e y : ℕ → ℝ) (ht : Monotone t) (he : ∀ c, e c ≠ 0) (c : ℕ)
    (C : ℕ → ℕ → ℝ) (hC : C = fun i j => acov om ma p s2 |t i - t j| + if i = j then e i * e i else 0)
    (M : Matrix (Fin c) (Fin c) ℝ) (hM : M = Matrix.of fun i j : Fin c => C i j)
    (k : Fin c → ℝ) (hk : k = fun j : Fin c => C c j) :
    0 < Carp.v om (bq om ma p) (SV om J s2) t e c ∧ IsUnit M.det ∧
    Carp.m om (bq om ma p) (SV om J s2) t e y c = k ⬝ᵥ (M⁻¹.mulVec fun j : Fin c => y j) ∧
    Carp.v om (bq om ma p) (SV om J s2) t e c = C c c - k ⬝ᵥ (M⁻¹.mulVec k) := by
  have hCS : C = Carp.S om (bq om ma p) (SV om J s2) t e := by
    rw [hC]; funext i j
    rw [Carp.S, Carp.K, autocovariance perm hJ hinj hneg hperm ma p le_rfl s2]; rfl
  have hP := pairs perm hJ hperm ma p s2
  have hv : ∀ c, 0 < Carp.v om (bq om ma p) (SV om J s2) t e c := fun c =>
    Carp.pos t e hP (stationary_psd hneg s2 hs) (growth_psd hneg s2 hs) ht c (he c)
  refine ⟨hv c, ?_⟩
  rw [hCS]
  exact Carp.kalman_is_conditioning t e c hP ht (fun d _ => (hv d).ne') c le_rfl y M (by rw [hM, hCS]) k (by rw [hk, hCS])

/-- M01 in the terms of the property. -/
theorem density (perm : Fin p ≃ Fin p) (hinj : Function.Injective om) (hneg : ∀ i, (om i).re < 0)
    (hperm : ∀ i, om (perm i) = conj (om i)) (J : Fin p → ℂ) (hJ : Loads om J) (ma : ℕ → ℝ) (s2 : ℝ) (hs : 0 ≤ s2)
    (t e y : ℕ → ℝ) (ht : Monotone t) (he : ∀ c, e c ≠ 0) (n : ℕ)
    (M : Matrix (Fin n) (Fin n) ℝ)
    (hM : M = Matrix.of fun i j : Fin n => acov om ma p s2 |t i - t j| + if (i : ℕ) = j then e i * e i else 0) :
    (∑ c ∈ range n, (y c - Carp.m om (bq om ma p) (SV om J s2) t e y c) * (y c - Carp.m om (bq om ma p) (SV om J s2) t e y c)
        / Carp.v om (bq om ma p) (SV om J s2) t e c = (fun i : Fin n => y i) ⬝ᵥ (M⁻¹.mulVec fun i : Fin n => y i)) ∧
    ∏ c ∈ range n, Carp.v om (bq om ma p) (SV om J s2) t e c = M.det := by
  have hP := pairs perm hJ hperm ma p s2
  have hv : ∀ c, 0 < Carp.v om (bq om ma p) (SV om J s2) t e c := fun c =>
    Carp.pos t e hP (stationary_psd hneg s2 hs) (growth_psd hneg s2 hs) ht c (he c)
  refine Carp.kalman_density t e n hP ht (fun d _ => (hv d).ne') y M ?_
  rw [hM]; congr 1; funext i j
  rw [Carp.S, Carp.K, autocovariance perm hJ hinj hneg hperm ma p le_rfl s2]; rfl

end Acov
