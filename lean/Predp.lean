import Cond
import Carp
import Ins

open Finset ComplexConjugate Ins

/-! Prediction of the CARMA(p,q) process at a time T between the observations, from the coefficient recursion. -/
namespace Carp
variable {p : ℕ} (om b : Fin p → ℂ) (Q : Fin p → Fin p → ℂ) (t e : ℕ → ℝ) (T : ℝ) (ip : ℕ)

/-- covariance after conditioning on an observation of variance s and propagation over d -/
noncomputable def prop (A : Fin p → Fin p → ℂ) (s d : ℝ) (i j : Fin p) : ℂ :=
  rho om i d * conj (rho om j d) * (A i j - s * gain b A s i * conj (gain b A s j) - Q i j) + Q i j

/-- state and covariance at T given the ip observations before it -/
noncomputable def xT (y : ℕ → ℝ) : ℕ → Fin p → ℂ
  | 0 => fun _ => 0
  | c + 1 => fun i => rho om i (T - t c) *
      (X om b Q t e y c i + gain b (P om b Q t e c) (v om b Q t e c) i * (y c - m om b Q t e y c : ℝ))
noncomputable def PT : ℕ → Fin p → Fin p → ℂ
  | 0 => Q
  | c + 1 => prop om b Q (P om b Q t e c) (v om b Q t e c) (T - t c)
noncomputable def mT (y : ℕ → ℝ) : ℝ := obs b (xT om b Q t e T y ip)
noncomputable def vT : ℝ := (quad b (PT om b Q t e T ip)).re

/-- coefficients at observation ip + j -/
noncomputable def Pc : ℕ → Fin p → Fin p → ℂ
  | 0 => prop om b Q (PT om b Q t e T ip) (vT om b Q t e T ip) (t ip - T)
  | j + 1 => prop om b Q (Pc j) (var b (Pc j) (e (ip + j))) (t (ip + (j+1)) - t (ip + j))
noncomputable def cv (j : ℕ) : ℝ := var b (Pc om b Q t e T ip j) (e (ip + j))
noncomputable def Xs : ℕ → Fin p → ℂ
  | 0 => fun i => rho om i (t ip - T) * gain b (PT om b Q t e T ip) (vT om b Q t e T ip) i
  | j + 1 => fun i => rho om i (t (ip + (j+1)) - t (ip + j)) *
      (Xs j i - gain b (Pc om b Q t e T ip j) (cv om b Q t e T ip j) i * (obs b (Xs j) : ℝ))
noncomputable def Xc (y : ℕ → ℝ) : ℕ → Fin p → ℂ
  | 0 => fun i => rho om i (t ip - T) * (xT om b Q t e T y ip i - gain b (PT om b Q t e T ip) (vT om b Q t e T ip) i * (mT om b Q t e T ip y : ℝ))
  | j + 1 => fun i => rho om i (t (ip + (j+1)) - t (ip + j)) *
      (Xc y j i + gain b (Pc om b Q t e T ip j) (cv om b Q t e T ip j) i * (y (ip + j) - obs b (Xc y j) : ℝ))
noncomputable def cs (j : ℕ) : ℝ := obs b (Xs om b Q t e T ip j)
noncomputable def cc (y : ℕ → ℝ) (j : ℕ) : ℝ := obs b (Xc om b Q t e T ip y j)

theorem obs_lin (f g : Fin p → ℂ) (x : ℝ) : obs b (fun i => f i + g i * x) = obs b f + obs b g * x := by
  simp only [obs]
  rw [show (∑ i, b i * (f i + g i * (x:ℂ))) = (∑ i, b i * f i) + (∑ i, b i * g i) * (x:ℂ) by
    rw [sum_mul, ← sum_add_distrib]; exact sum_congr rfl (fun i _ => by ring)]
  simp

theorem P_step (c : ℕ) : P om b Q t e (c + 1) = prop om b Q (P om b Q t e c) (v om b Q t e c) (t (c+1) - t c) := rfl

/-- the filter of the series with the noise-free value x at T put in -/
theorem ext_before (y : ℕ → ℝ) (x : ℝ) (c : ℕ) (h : c < ip) :
    X om b Q (ins ip t T) (ins ip e 0) (ins ip y x) c = X om b Q t e y c ∧ P om b Q (ins ip t T) (ins ip e 0) c = P om b Q t e c ∧
    v om b Q (ins ip t T) (ins ip e 0) c = v om b Q t e c := by
  induction c with
  | zero => exact ⟨rfl, rfl, by simp [v, P, ins_lt ip h]⟩
  | succ c ih =>
    obtain ⟨h1, h2, h3⟩ := ih (by omega)
    have hP : P om b Q (ins ip t T) (ins ip e 0) (c + 1) = P om b Q t e (c + 1) := by
      rw [P_step, P_step, h2, h3, ins_lt ip h, ins_lt ip (show c < ip by omega)]
    refine ⟨?_, hP, by rw [v, v, hP, ins_lt ip h]⟩
    funext i
    simp only [X]
    rw [h1, h2, h3, ins_lt ip h, ins_lt ip (show c < ip by omega), ins_lt ip (show c < ip by omega)]

theorem ext_at (y : ℕ → ℝ) (x : ℝ) :
    X om b Q (ins ip t T) (ins ip e 0) (ins ip y x) ip = xT om b Q t e T y ip ∧ P om b Q (ins ip t T) (ins ip e 0) ip = PT om b Q t e T ip ∧
    v om b Q (ins ip t T) (ins ip e 0) ip = vT om b Q t e T ip := by
  have hX : X om b Q (ins ip t T) (ins ip e 0) (ins ip y x) ip = xT om b Q t e T y ip ∧ P om b Q (ins ip t T) (ins ip e 0) ip = PT om b Q t e T ip := by
    cases ip with
    | zero => exact ⟨rfl, rfl⟩
    | succ c =>
      obtain ⟨h1, h2, h3⟩ := ext_before om b Q t e T (c+1) y x c (by omega)
      refine ⟨?_, ?_⟩
      · funext i
        simp only [X, xT, m]
        rw [h1, h2, h3, ins_at, ins_lt (c+1) (show c < c+1 by omega), ins_lt (c+1) (show c < c+1 by omega)]
      · rw [P_step, PT, h2, h3, ins_at, ins_lt (c+1) (show c < c+1 by omega)]
  exact ⟨hX.1, hX.2, by rw [v, hX.2, ins_at, vT, var]; ring⟩

theorem ext_after (y : ℕ → ℝ) (x : ℝ) (j : ℕ) :
    X om b Q (ins ip t T) (ins ip e 0) (ins ip y x) (ip + 1 + j) = (fun i => Xc om b Q t e T ip y j i + Xs om b Q t e T ip j i * x) ∧
    P om b Q (ins ip t T) (ins ip e 0) (ip + 1 + j) = Pc om b Q t e T ip j ∧
    v om b Q (ins ip t T) (ins ip e 0) (ip + 1 + j) = cv om b Q t e T ip j := by
  induction j with
  | zero =>
    obtain ⟨h1, h2, h3⟩ := ext_at om b Q t e T ip y x
    have g1 : ∀ (f : ℕ → ℝ) (z : ℝ), ins ip f z (ip + 1) = f ip := fun f z => ins_gt ip 0
    rw [show ip + 1 + 0 = ip + 1 by rfl]
    have hP : P om b Q (ins ip t T) (ins ip e 0) (ip + 1) = Pc om b Q t e T ip 0 := by
      rw [P_step, h2, h3, ins_at, g1]; rfl
    refine ⟨?_, hP, by rw [v, hP, g1]; rfl⟩
    funext i
    simp only [X, Xc, Xs]
    rw [h1, h2, h3, ins_at, ins_at, g1, mT]
    push_cast; ring
  | succ j ih =>
    obtain ⟨h1, h2, h3⟩ := ih
    rw [show ip + 1 + (j + 1) = ip + 1 + j + 1 by rfl]
    have g1 : ∀ (f : ℕ → ℝ) (z : ℝ), ins ip f z (ip + 1 + j + 1) = f (ip + (j + 1)) := fun f z => ins_gt ip (j + 1)
    have hP : P om b Q (ins ip t T) (ins ip e 0) (ip + 1 + j + 1) = Pc om b Q t e T ip (j + 1) := by
      rw [P_step, h2, h3, ins_gt, g1]; rfl
    refine ⟨?_, hP, by rw [v, hP, g1]; rfl⟩
    funext i
    simp only [X, Xc, Xs]
    rw [h1, h2, h3, ins_gt, ins_gt, g1, obs_lin]
    push_cast; ring

theorem ext_mean (y : ℕ → ℝ) (x : ℝ) (j : ℕ) :
    m om b Q (ins ip t T) (ins ip e 0) (ins ip y x) (ip + 1 + j) = cc om b Q t e T ip y j + cs om b Q t e T ip j * x := by
  rw [m, (ext_after om b Q t e T ip y x j).1, obs_lin]; rfl

theorem cc_zero (j : ℕ) : cc om b Q t e T ip (fun _ => 0) j = 0 := by
  have h1 := ext_mean om b Q t e T ip (fun _ => 0) 0 j
  rw [mul_zero, add_zero] at h1
  rw [← h1, linear]
  exact sum_eq_zero (fun l _ => by simp [ins])

/-- the slope is the weight of the value at T in the prediction of a later observation -/
theorem slope_eq (j : ℕ) : a (ins ip t T) (ins ip e 0) om b Q (ip + 1 + j) ip = cs om b Q t e T ip j := by
  have h1 := ext_mean om b Q t e T ip (fun _ => 0) 1 j
  rw [cc_zero] at h1
  rw [a, delta, h1]; ring

variable {om b Q}

/-- F04: with r observations at or after T, the product of the forward density at T and of the likelihood of the later
observations given the value at T has the mean and variance of the process at T conditional on all observations. The
conditional mean is sum_l g l y l for the weights g solving the normal equations; index ip is the process at T. -/
theorem predict_is_conditioning (h : Pairs om b Q) (r : ℕ) (ht : Monotone t) (h1 : ∀ j, j < ip → t j ≤ T) (h2 : T ≤ t ip) (y : ℕ → ℝ)
    (hvb : ∀ c, c < ip → 0 < v om b Q t e c) (hvT : 0 < vT om b Q t e T ip) (hva : ∀ j, j < r → 0 < cv om b Q t e T ip j)
    (prec num : ℝ)
    (hprec : prec = 1 / vT om b Q t e T ip + ∑ j ∈ range r, cs om b Q t e T ip j * cs om b Q t e T ip j / cv om b Q t e T ip j)
    (hnum : num = mT om b Q t e T ip y / vT om b Q t e T ip
      + ∑ j ∈ range r, cs om b Q t e T ip j * (y (ip + j) - cc om b Q t e T ip y j) / cv om b Q t e T ip j)
    (C : ℕ → ℕ → ℝ) (hC : C = S om b Q (ins ip t T) (ins ip e 0)) :
    (∃ g : ℕ → ℝ, g ip = 0 ∧ ∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) ∧
    ∀ g : ℕ → ℝ, g ip = 0 → (∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) →
      num / prec = ∑ l ∈ range (ip + 1 + r), g l * ins ip y 0 l ∧
      1 / prec = C ip ip - ∑ l ∈ range (ip + 1 + r), g l * C l ip := by
  subst hC
  have hv : ∀ c, c < ip + 1 + r → 0 < v om b Q (ins ip t T) (ins ip e 0) c := by
    intro c hc
    rcases Nat.lt_trichotomy c ip with h | h | h
    · rw [(ext_before om b Q t e T ip y 0 c h).2.2]; exact hvb c h
    · rw [h, (ext_at om b Q t e T ip y 0).2.2]; exact hvT
    · obtain ⟨j, rfl⟩ : ∃ j, c = ip + 1 + j := ⟨c - (ip + 1), by omega⟩
      rw [(ext_after om b Q t e T ip y 0 j).2.2]; exact hva j (by omega)
  have hi := innov (ins ip t T) (ins ip e 0) (ip + 1 + r) h (mono_ins t T ip ht h1 h2) (fun c hc => (hv c hc).ne')
  refine Cond.smooth_after ip r hi hv (ins ip y 0) prec num ?_ ?_
  · rw [hprec, (ext_at om b Q t e T ip y 0).2.2]
    congr 1
    exact sum_congr rfl (fun j _ => by rw [slope_eq, (ext_after om b Q t e T ip y 0 j).2.2])
  · rw [hnum, (ext_at om b Q t e T ip y 0).2.2, ← linear, m, (ext_at om b Q t e T ip y 0).1]
    congr 1
    refine sum_congr rfl (fun j _ => ?_)
    rw [slope_eq, (ext_after om b Q t e T ip y 0 j).2.2, ins_gt]
    have e1 : ∀ l ∈ range (ip + 1 + j), a (ins ip t T) (ins ip e 0) om b Q (ip + 1 + j) l * (if l = ip then 0 else ins ip y 0 l)
        = a (ins ip t T) (ins ip e 0) om b Q (ip + 1 + j) l * ins ip y 0 l := by
      intro l _
      by_cases hl : l = ip
      · subst hl; simp [ins]
      · simp [hl]
    rw [sum_congr rfl e1, ← linear, ext_mean]
    ring

/-- F04 after the last observation: the forward mean and variance are the conditional ones. -/
theorem forward_is_conditioning (h : Pairs om b Q) (n : ℕ) (ht : Monotone t) (h1 : ∀ j, j < n → t j ≤ T) (y : ℕ → ℝ)
    (hv : ∀ c, c < n → v om b Q t e c ≠ 0)
    (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = Matrix.of fun i j : Fin n => S om b Q t e i j)
    (k : Fin n → ℝ) (hk : k = fun j : Fin n => R om b Q (T - t j)) :
    IsUnit M.det ∧ mT om b Q t e T n y = k ⬝ᵥ (M⁻¹.mulVec fun j : Fin n => y j) ∧
    vT om b Q t e T n = R om b Q 0 - k ⬝ᵥ (M⁻¹.mulVec k) := by
  -- the series cut at n and continued by the value at T
  set t' : ℕ → ℝ := fun c => if c < n then t c else T with ht'
  set e' : ℕ → ℝ := fun c => if c < n then e c else 0 with he'
  have hmono : Monotone t' := by
    intro c d hcd
    by_cases hd : d < n
    · simp [ht', hd, show c < n by omega]; exact ht hcd
    · by_cases hc : c < n
      · simp [ht', hd, hc]; exact h1 c hc
      · simp [ht', hd, hc]
  have hb : ∀ c, c < n → X om b Q t' e' y c = X om b Q t e y c ∧ P om b Q t' e' c = P om b Q t e c ∧ v om b Q t' e' c = v om b Q t e c := by
    intro c
    induction c with
    | zero => intro h; exact ⟨rfl, rfl, by simp [v, P, he', h]⟩
    | succ c ih =>
      intro h
      obtain ⟨i1, i2, i3⟩ := ih (by omega)
      have e1 : t' (c + 1) = t (c + 1) := by simp [ht', h]
      have e2 : t' c = t c := by simp [ht', show c < n by omega]
      have e3 : e' (c + 1) = e (c + 1) := by simp [he', h]
      have hP : P om b Q t' e' (c + 1) = P om b Q t e (c + 1) := by rw [P_step, P_step, i2, i3, e1, e2]
      refine ⟨?_, hP, by rw [v, v, hP, e3]⟩
      funext i
      simp only [X]
      rw [i1, i2, i3, e1, e2]
  have hat : m om b Q t' e' y n = mT om b Q t e T n y ∧ v om b Q t' e' n = vT om b Q t e T n := by
    have e0 : e' n = 0 := by simp [he']
    have hX : X om b Q t' e' y n = xT om b Q t e T y n ∧ P om b Q t' e' n = PT om b Q t e T n := by
      cases n with
      | zero => exact ⟨rfl, rfl⟩
      | succ c =>
        obtain ⟨i1, i2, i3⟩ := hb c (by omega)
        have e1 : t' (c + 1) = T := by simp [ht']
        have e2 : t' c = t c := by simp [ht']
        refine ⟨?_, by rw [P_step, PT, i2, i3, e1, e2]⟩
        funext i
        simp only [X, xT, m]
        rw [i1, i2, i3, e1, e2]
    refine ⟨by rw [m, mT, hX.1], by rw [v, vT, hX.2, e0, var]; ring⟩
  have hS : ∀ i j, i < n → j < n → S om b Q t' e' i j = S om b Q t e i j := by
    intro i j hi hj
    simp [S, K, ht', he', hi, hj]
  obtain ⟨g0, g1, g2⟩ := kalman_is_conditioning t' e' n h hmono (fun c hc => by rw [(hb c hc).2.2]; exact hv c hc) n le_rfl y M
    (by rw [hM]; ext i j; simp [hS i j i.2 j.2]) k
    (by rw [hk]; funext j
        simp only [S, Nat.ne_of_gt j.2, if_false, add_zero, K, ht', lt_irrefl, j.2, if_true]
        rw [abs_of_nonneg (by have := h1 j j.2; linarith)])
  refine ⟨g0, by rw [← hat.1, g1], ?_⟩
  rw [← hat.2, g2]
  simp [S, K, he']

end Carp
