import Mathlib.Tactic
import Mathlib.Analysis.Complex.Basic

open Finset

/-! Coefficients, by decreasing power, of a product of linear or quadratic factors. -/
namespace Poly
variable (r : ℕ → ℂ) (qa qb : ℕ → ℝ)

def ep : ℕ → ℤ → ℂ
  | 0 => fun k => if k = 0 then 1 else 0
  | c + 1 => fun k => ep c k - r c * ep c (k - 1)

def cp : ℕ → ℤ → ℝ
  | 0 => fun k => if k = 0 then 1 else 0
  | c + 1 => fun k => cp c k + qb c * cp c (k - 1) + qa c * cp c (k - 2)

theorem ep_out (c : ℕ) : ∀ k : ℤ, (k < 0 ∨ (c : ℤ) < k) → ep r c k = 0 := by
  induction c with
  | zero => intro k h; have : k ≠ 0 := by rcases h with h | h <;> [omega; (simp at h; omega)]
            simp [ep, this]
  | succ c ih => intro k h; simp only [ep]; push_cast at h; rw [ih k (by omega), ih (k - 1) (by omega)]; simp

theorem cp_out (c : ℕ) : ∀ k : ℤ, (k < 0 ∨ (2 * c : ℤ) < k) → cp qa qb c k = 0 := by
  induction c with
  | zero => intro k h; have : k ≠ 0 := by rcases h with h | h <;> [omega; (simp at h; omega)]
            simp [cp, this]
  | succ c ih => intro k h; simp only [cp]; push_cast at h; rw [ih k (by omega), ih (k - 1) (by omega), ih (k - 2) (by omega)]; simp

/-- M04: the numbers of the recursion are the coefficients of the product of the linear factors. -/
theorem linear_factors (c : ℕ) (z : ℂ) : ∑ k ∈ range (c + 1), ep r c k * z ^ (c - k) = ∏ j ∈ range c, (z - r j) := by
  induction c with
  | zero => simp [ep]
  | succ c ih =>
    rw [prod_range_succ, ← ih]
    simp only [ep, sub_mul, sum_sub_distrib]
    have h1 : ∑ k ∈ range (c + 1 + 1), ep r c k * z ^ (c + 1 - k) = (∑ k ∈ range (c + 1), ep r c k * z ^ (c - k)) * z := by
      rw [sum_range_succ, ep_out r c _ (Or.inr (by push_cast; omega)), zero_mul, add_zero, sum_mul]
      refine sum_congr rfl (fun k hk => ?_)
      have := mem_range.mp hk
      rw [mul_assoc, ← pow_succ, show c - k + 1 = c + 1 - k by omega]
    have h2 : ∑ k ∈ range (c + 1 + 1), r c * ep r c ((k : ℤ) - 1) * z ^ (c + 1 - k) = (∑ k ∈ range (c + 1), ep r c k * z ^ (c - k)) * r c := by
      rw [sum_range_succ', show ((0 : ℕ) : ℤ) - 1 = -1 by norm_num, ep_out r c (-1) (Or.inl (by norm_num)), mul_zero, zero_mul, add_zero, sum_mul]
      refine sum_congr rfl (fun k _ => ?_)
      rw [show ((k + 1 : ℕ) : ℤ) - 1 = k by push_cast; ring, show c + 1 - (k + 1) = c - k by omega]; ring
    rw [h1, h2]; ring

/-- M04: the same for quadratic factors. -/
theorem quadratic_factors (c : ℕ) (z : ℝ) :
    ∑ k ∈ range (2 * c + 1), cp qa qb c k * z ^ (2 * c - k) = ∏ j ∈ range c, (z ^ 2 + qb j * z + qa j) := by
  induction c with
  | zero => simp [cp]
  | succ c ih =>
    rw [prod_range_succ, ← ih]
    simp only [cp, add_mul, sum_add_distrib]
    rw [show 2 * (c + 1) + 1 = 2 * c + 1 + 1 + 1 by ring, show 2 * (c + 1) = 2 * c + 2 by ring]
    have h1 : ∑ k ∈ range (2 * c + 1 + 1 + 1), cp qa qb c k * z ^ (2 * c + 2 - k) = (∑ k ∈ range (2 * c + 1), cp qa qb c k * z ^ (2 * c - k)) * z ^ 2 := by
      rw [sum_range_succ, sum_range_succ, cp_out qa qb c _ (Or.inr (by push_cast; omega)), cp_out qa qb c _ (Or.inr (by push_cast; omega)), zero_mul, zero_mul, add_zero, add_zero, sum_mul]
      refine sum_congr rfl (fun k hk => ?_)
      have := mem_range.mp hk
      rw [mul_assoc, ← pow_add, show 2 * c - k + 2 = 2 * c + 2 - k by omega]
    have h2 : ∑ k ∈ range (2 * c + 1 + 1 + 1), qb c * cp qa qb c ((k : ℤ) - 1) * z ^ (2 * c + 2 - k) = (∑ k ∈ range (2 * c + 1), cp qa qb c k * z ^ (2 * c - k)) * (qb c * z) := by
      rw [sum_range_succ', show ((0 : ℕ) : ℤ) - 1 = -1 by norm_num, cp_out qa qb c (-1) (Or.inl (by norm_num)), mul_zero, zero_mul, add_zero,
        sum_range_succ, cp_out qa qb c _ (Or.inr (by push_cast; omega)), mul_zero, zero_mul, add_zero, sum_mul]
      refine sum_congr rfl (fun k hk => ?_)
      have := mem_range.mp hk
      rw [show ((k + 1 : ℕ) : ℤ) - 1 = k by push_cast; ring, show 2 * c + 2 - (k + 1) = 2 * c - k + 1 by omega, pow_succ]; ring
    have h3 : ∑ k ∈ range (2 * c + 1 + 1 + 1), qa c * cp qa qb c ((k : ℤ) - 2) * z ^ (2 * c + 2 - k) = (∑ k ∈ range (2 * c + 1), cp qa qb c k * z ^ (2 * c - k)) * qa c := by
      rw [sum_range_succ', sum_range_succ', cp_out qa qb c _ (Or.inl (by norm_num)), cp_out qa qb c _ (Or.inl (by norm_num)), mul_zero, zero_mul, zero_mul, add_zero, add_zero, sum_mul]
      refine sum_congr rfl (fun k _ => ?_)
      rw [show ((k + 1 + 1 : ℕ) : ℤ) - 2 = k by push_cast; ring, show 2 * c + 2 - (k + 1 + 1) = 2 * c - k by omega]; ring
    rw [h1, h2, h3]; ring

end Poly
