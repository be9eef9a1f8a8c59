import Mathlib.Tactic
import Car1

open Real Finset

namespace Car1
variable (w s2 : ℝ) (t e : ℕ → ℝ)

/-- The variance predicted by the CAR(1) filter exceeds the error variance: the divisors of the filter are positive for
every positive rate and noise variance, every strictly increasing times and any errors. -/
theorem pos (hw : 0 < w) (hs : 0 < s2) (ht : StrictMono t) (c : ℕ) : e c * e c < v w s2 t e c := by
  have hq : 0 < s2 / (2 * w) := by positivity
  induction c with
  | zero => simp only [v]; linarith
  | succ c ih =>
    have h1 : t c < t (c + 1) := ht (Nat.lt_succ_self c)
    have hr : exp (-w * (t (c+1) - t c)) < 1 := by
      rw [exp_lt_one_iff]; nlinarith
    have hr0 := exp_pos (-w * (t (c+1) - t c))
    simp only [v]
    generalize exp (-w * (t (c+1) - t c)) = r at *
    generalize hV : v w s2 t e c = V at *
    have hV0 : 0 < V := lt_of_le_of_lt (mul_self_nonneg _) ih
    have h2 : 1 - (V - e c * e c) / V = e c * e c / V := by field_simp; ring
    rw [h2]
    have h3 : 0 ≤ r * r * (V - e c * e c) * (e c * e c / V) := by
      have := mul_self_nonneg (e c)
      have : 0 ≤ V - e c * e c := by linarith
      positivity
    have h4 : 0 < s2 / (2 * w) * (1 - r * r) := mul_pos hq (by nlinarith)
    linarith

theorem ne_zero (hw : 0 < w) (hs : 0 < s2) (ht : StrictMono t) (c : ℕ) : v w s2 t e c ≠ 0 :=
  (lt_of_le_of_lt (mul_self_nonneg _) (pos w s2 t e hw hs ht c)).ne'

end Car1
