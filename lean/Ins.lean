import Mathlib.Tactic

/-! A series with one more place. -/
namespace Ins
variable (t : ℕ → ℝ) (T : ℝ) (ip : ℕ)

/-- a value put in at place ip -/
def ins (f : ℕ → ℝ) (x : ℝ) (c : ℕ) : ℝ := if c < ip then f c else if c = ip then x else f (c - 1)

theorem ins_lt {f : ℕ → ℝ} {x : ℝ} {c : ℕ} (h : c < ip) : ins ip f x c = f c := by simp [ins, h]
theorem ins_at {f : ℕ → ℝ} {x : ℝ} : ins ip f x ip = x := by simp [ins]
theorem ins_gt {f : ℕ → ℝ} {x : ℝ} (j : ℕ) : ins ip f x (ip + 1 + j) = f (ip + j) := by
  simp [ins, show ¬ ip + 1 + j < ip by omega, show ip + 1 + j ≠ ip by omega, show ip + 1 + j - 1 = ip + j by omega]

theorem mono_ins (ht : Monotone t) (h1 : ∀ j, j < ip → t j ≤ T) (h2 : T ≤ t ip) : Monotone (ins ip t T) := by
  refine monotone_nat_of_le_succ (fun c => ?_)
  rcases Nat.lt_trichotomy (c + 1) ip with h | h | h
  · rw [ins_lt ip h, ins_lt ip (by omega)]; exact ht (by omega)
  · rw [ins_lt ip (by omega), h, ins_at]; exact h1 c (by omega)
  · obtain ⟨j, rfl⟩ : ∃ j, c = ip + j := ⟨c - ip, by omega⟩
    rw [show ip + j + 1 = ip + 1 + j by omega, ins_gt]
    rcases Nat.eq_zero_or_pos j with h0 | h0
    · subst h0; rw [show ip + 0 = ip by rfl, ins_at]; exact h2
    · obtain ⟨i, rfl⟩ : ∃ i, j = i + 1 := ⟨j - 1, by omega⟩
      rw [show ip + (i + 1) = ip + 1 + i by omega, ins_gt]; exact ht (by omega)

theorem delta : (fun k => if k = ip then (1:ℝ) else 0) = ins ip (fun _ => 0) 1 := by
  funext k; by_cases hk : k = ip
  · subst hk; simp [ins]
  · simp [ins, hk]

end Ins
