import Cond
import Car1
import Ins

open Finset Real Ins

/-! Prediction of the CAR(1) process at a time T between the observations, from the coefficient recursion. -/
namespace Car1
variable (w s2 : ℝ) (t e : ℕ → ℝ) (T : ℝ) (ip : ℕ)

/-- mean and variance of the process at T given the ip observations before it -/
noncomputable def mT (y : ℕ → ℝ) : ℕ → ℝ
  | 0 => 0
  | c + 1 => exp (-w * (T - t c)) * m w s2 t e y c
      + exp (-w * (T - t c)) * (v w s2 t e c - e c * e c) / v w s2 t e c * (y c - m w s2 t e y c)
noncomputable def vT : ℕ → ℝ
  | 0 => s2 / (2 * w)
  | c + 1 => s2 / (2 * w) * (1 - exp (-w * (T - t c)) * exp (-w * (T - t c)))
      + exp (-w * (T - t c)) * exp (-w * (T - t c)) * (v w s2 t e c - e c * e c) * (1 - (v w s2 t e c - e c * e c) / v w s2 t e c)

/-- coefficients at observation ip + j -/
noncomputable def cv : ℕ → ℝ
  | 0 => s2 / (2 * w) * (1 - exp (-2 * w * (t ip - T))) + e ip * e ip
  | j + 1 => s2 / (2 * w) * (1 - exp (-w * (t (ip + (j+1)) - t (ip + j))) * exp (-w * (t (ip + (j+1)) - t (ip + j))))
      + exp (-w * (t (ip + (j+1)) - t (ip + j))) * exp (-w * (t (ip + (j+1)) - t (ip + j))) * (cv j - e (ip + j) * e (ip + j)) * (1 - (cv j - e (ip + j) * e (ip + j)) / cv j)
      + e (ip + (j+1)) * e (ip + (j+1))
noncomputable def cs : ℕ → ℝ
  | 0 => exp (-w * (t ip - T))
  | j + 1 => cs j * exp (-w * (t (ip + (j+1)) - t (ip + j))) * (1 - (cv w s2 t e T ip j - e (ip + j) * e (ip + j)) / cv w s2 t e T ip j)
noncomputable def cc (y : ℕ → ℝ) : ℕ → ℝ
  | 0 => 0
  | j + 1 => cc y j * exp (-w * (t (ip + (j+1)) - t (ip + j))) * (1 - (cv w s2 t e T ip j - e (ip + j) * e (ip + j)) / cv w s2 t e T ip j)
      + exp (-w * (t (ip + (j+1)) - t (ip + j))) * ((cv w s2 t e T ip j - e (ip + j) * e (ip + j)) / cv w s2 t e T ip j) * y (ip + j)

/-- the filter of the series with the noise-free value x at T put in -/
theorem ext_before (y : ℕ → ℝ) (x : ℝ) (c : ℕ) (h : c < ip) :
    m w s2 (ins ip t T) (ins ip e 0) (ins ip y x) c = m w s2 t e y c ∧ v w s2 (ins ip t T) (ins ip e 0) c = v w s2 t e c := by
  induction c with
  | zero => simp [m, v, ins_lt ip h]
  | succ c ih =>
    obtain ⟨h1, h2⟩ := ih (by omega)
    simp only [m, v]
    rw [h1, h2, ins_lt ip h, ins_lt ip (show c < ip by omega), ins_lt ip (show c < ip by omega), ins_lt ip h, ins_lt ip (show c < ip by omega)]
    exact ⟨rfl, rfl⟩

theorem ext_at (y : ℕ → ℝ) (x : ℝ) :
    m w s2 (ins ip t T) (ins ip e 0) (ins ip y x) ip = mT w s2 t e T y ip ∧ v w s2 (ins ip t T) (ins ip e 0) ip = vT w s2 t e T ip := by
  cases ip with
  | zero => simp [m, v, mT, vT, ins]
  | succ c =>
    obtain ⟨h1, h2⟩ := ext_before w s2 t e T (c+1) y x c (by omega)
    simp only [m, v, mT, vT]
    rw [h1, h2, ins_at, ins_at, ins_lt (c+1) (show c < c+1 by omega), ins_lt (c+1) (show c < c+1 by omega), ins_lt (c+1) (show c < c+1 by omega)]
    refine ⟨rfl, by ring⟩

theorem ext_after (y : ℕ → ℝ) (x : ℝ) (hvT : vT w s2 t e T ip ≠ 0) (j : ℕ) :
    m w s2 (ins ip t T) (ins ip e 0) (ins ip y x) (ip + 1 + j) = cc w s2 t e T ip y j + cs w s2 t e T ip j * x ∧
    v w s2 (ins ip t T) (ins ip e 0) (ip + 1 + j) = cv w s2 t e T ip j := by
  induction j with
  | zero =>
    obtain ⟨h1, h2⟩ := ext_at w s2 t e T ip y x
    have g1 : ∀ (f : ℕ → ℝ) (z : ℝ), ins ip f z (ip + 1) = f ip := fun f z => ins_gt ip 0
    rw [show ip + 1 + 0 = ip + 1 by rfl]
    simp only [m, v, cc, cs, cv]
    rw [h1, h2, ins_at, ins_at, ins_at, g1, g1]
    have : exp (-2 * w * (t ip - T)) = exp (-w * (t ip - T)) * exp (-w * (t ip - T)) := by rw [← exp_add]; ring_nf
    rw [this]
    constructor
    · field_simp; ring
    · field_simp; ring
  | succ j ih =>
    obtain ⟨h1, h2⟩ := ih
    rw [show ip + 1 + (j + 1) = ip + 1 + j + 1 by rfl]
    have g1 : ∀ (f : ℕ → ℝ) (z : ℝ), ins ip f z (ip + 1 + j + 1) = f (ip + (j + 1)) := fun f z => ins_gt ip (j + 1)
    simp only [m, v, cc, cs, cv]
    rw [h1, h2, ins_gt, ins_gt, ins_gt, g1, g1]
    constructor <;> ring

theorem cc_zero (j : ℕ) : cc w s2 t e T ip (fun _ => 0) j = 0 := by
  induction j with
  | zero => rfl
  | succ j ih => simp [cc, ih]

/-- the slope is the weight of the value at T in the prediction of a later observation -/
theorem slope_eq (hvT : vT w s2 t e T ip ≠ 0) (j : ℕ) :
    a w s2 (ins ip t T) (ins ip e 0) (ip + 1 + j) ip = cs w s2 t e T ip j := by
  have h1 := (ext_after w s2 t e T ip (fun _ => 0) 1 hvT j).1
  rw [cc_zero] at h1
  have : (fun k => if k = ip then (1:ℝ) else 0) = ins ip (fun _ => 0) 1 := by
    funext k; by_cases hk : k = ip
    · subst hk; simp [ins]
    · simp [ins, hk]
  rw [a, this, h1]; ring

/-- F03: with r observations at or after T, the product of the forward density at T and of the likelihood of the later
observations given the value at T has the mean and variance of the process at T conditional on all observations. The
conditional mean is sum_l g l y l for the weights g solving the normal equations; index ip is the process at T. -/
theorem predict_is_conditioning (r : ℕ) (ht : Monotone t) (h1 : ∀ j, j < ip → t j ≤ T) (h2 : T ≤ t ip) (y : ℕ → ℝ)
    (hvb : ∀ c, c < ip → 0 < v w s2 t e c) (hvT : 0 < vT w s2 t e T ip) (hva : ∀ j, j < r → 0 < cv w s2 t e T ip j)
    (prec num : ℝ)
    (hprec : prec = 1 / vT w s2 t e T ip + ∑ j ∈ range r, cs w s2 t e T ip j * cs w s2 t e T ip j / cv w s2 t e T ip j)
    (hnum : num = mT w s2 t e T y ip / vT w s2 t e T ip
      + ∑ j ∈ range r, cs w s2 t e T ip j * (y (ip + j) - cc w s2 t e T ip y j) / cv w s2 t e T ip j)
    (C : ℕ → ℕ → ℝ) (hC : C = S w s2 (ins ip t T) (ins ip e 0)) :
    (∃ g : ℕ → ℝ, g ip = 0 ∧ ∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) ∧
    ∀ g : ℕ → ℝ, g ip = 0 → (∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) →
      num / prec = ∑ l ∈ range (ip + 1 + r), g l * ins ip y 0 l ∧
      1 / prec = C ip ip - ∑ l ∈ range (ip + 1 + r), g l * C l ip := by
  subst hC
  have hv : ∀ c, c < ip + 1 + r → 0 < v w s2 (ins ip t T) (ins ip e 0) c := by
    intro c hc
    rcases Nat.lt_trichotomy c ip with h | h | h
    · rw [(ext_before w s2 t e T ip y 0 c h).2]; exact hvb c h
    · rw [h, (ext_at w s2 t e T ip y 0).2]; exact hvT
    · obtain ⟨j, rfl⟩ : ∃ j, c = ip + 1 + j := ⟨c - (ip + 1), by omega⟩
      rw [(ext_after w s2 t e T ip y 0 hvT.ne' j).2]; exact hva j (by omega)
  have hi := innov w s2 (ins ip t T) (ins ip e 0) (ip + 1 + r) (mono_ins t T ip ht h1 h2) (fun c hc => (hv c hc).ne')
  refine Cond.smooth_after ip r hi hv (ins ip y 0) prec num ?_ ?_
  · rw [hprec, (ext_at w s2 t e T ip y 0).2]
    congr 1
    exact sum_congr rfl (fun j _ => by rw [slope_eq _ _ _ _ _ _ hvT.ne', (ext_after w s2 t e T ip y 0 hvT.ne' j).2])
  · rw [hnum, (ext_at w s2 t e T ip y 0).2, ← linear, (ext_at w s2 t e T ip y 0).1]
    congr 1
    refine sum_congr rfl (fun j _ => ?_)
    rw [slope_eq _ _ _ _ _ _ hvT.ne', (ext_after w s2 t e T ip y 0 hvT.ne' j).2, ins_gt]
    have e1 : ∀ l ∈ range (ip + 1 + j), a w s2 (ins ip t T) (ins ip e 0) (ip + 1 + j) l * (if l = ip then 0 else ins ip y 0 l)
        = a w s2 (ins ip t T) (ins ip e 0) (ip + 1 + j) l * ins ip y 0 l := by
      intro l _
      by_cases hl : l = ip
      · subst hl; simp [ins]
      · simp [hl]
    rw [sum_congr rfl e1, ← linear, (ext_after w s2 t e T ip y 0 hvT.ne' j).1]
    ring

/-- F03 after the last observation: the forward mean and variance are the conditional ones. -/
theorem forward_is_conditioning (n : ℕ) (ht : Monotone t) (h1 : ∀ j, j < n → t j ≤ T) (y : ℕ → ℝ)
    (hv : ∀ c, c < n → v w s2 t e c ≠ 0)
    (M : Matrix (Fin n) (Fin n) ℝ) (hM : M = Matrix.of fun i j : Fin n => S w s2 t e i j)
    (k : Fin n → ℝ) (hk : k = fun j : Fin n => s2 / (2 * w) * exp (-w * (T - t j))) :
    IsUnit M.det ∧ mT w s2 t e T y n = k ⬝ᵥ (M⁻¹.mulVec fun j : Fin n => y j) ∧
    vT w s2 t e T n = s2 / (2 * w) - k ⬝ᵥ (M⁻¹.mulVec k) := by
  -- the series cut at n and continued by the value at T
  set t' : ℕ → ℝ := fun c => if c < n then t c else T with ht'
  set e' : ℕ → ℝ := fun c => if c < n then e c else 0 with he'
  have hmono : Monotone t' := by
    intro c d hcd
    by_cases hd : d < n
    · simp [ht', hd, show c < n by omega]; exact ht hcd
    · by_cases hc : c < n
      · simp [ht', hd, hc]; exact h1 c hc
      · simp [ht', hd, hc]
  have hb : ∀ c, c < n → m w s2 t' e' y c = m w s2 t e y c ∧ v w s2 t' e' c = v w s2 t e c := by
    intro c
    induction c with
    | zero => intro h; simp [m, v, he', h]
    | succ c ih =>
      intro h
      obtain ⟨i1, i2⟩ := ih (by omega)
      simp only [m, v]
      rw [i1, i2]
      simp only [ht', he', h, show c < n by omega, if_true]
      exact ⟨trivial, trivial⟩
  have hat : m w s2 t' e' y n = mT w s2 t e T y n ∧ v w s2 t' e' n = vT w s2 t e T n := by
    cases n with
    | zero => simp [m, v, mT, vT, he']
    | succ c =>
      obtain ⟨i1, i2⟩ := hb c (by omega)
      simp only [m, v, mT, vT]
      rw [i1, i2]
      simp only [ht', he', show c < c + 1 by omega, show ¬ c + 1 < c + 1 by omega, if_true, if_false]
      exact ⟨trivial, by ring⟩
  have hS : ∀ i j, i < n → j < n → S w s2 t' e' i j = S w s2 t e i j := by
    intro i j hi hj
    simp [S, K, ht', he', hi, hj]
  obtain ⟨g0, g1, g2⟩ := kalman_is_conditioning w s2 t' e' n hmono (fun c hc => by rw [(hb c hc).2]; exact hv c hc) n le_rfl y M
    (by rw [hM]; ext i j; simp [hS i j i.2 j.2]) k
    (by rw [hk]; funext j
        simp only [S, Nat.ne_of_gt j.2, if_false, add_zero, K, ht', lt_irrefl, j.2, if_true]
        rw [abs_of_nonneg (by have := h1 j j.2; linarith)])
  refine ⟨g0, by rw [← hat.1, g1], ?_⟩
  rw [← hat.2, g2]
  simp [S, K, he']

end Car1
