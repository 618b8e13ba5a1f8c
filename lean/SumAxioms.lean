/-
The axiom schemes about finite sums that engine/logic.py instantiates.  A sum over b in [0,hi) is
`∑ b ∈ Finset.range hi, f b`; values are rationals (integer sums are a special case); hi is a natural number because the
engine instantiates `hi <= 0 → sum = 0` separately (an empty range).
-/
import Mathlib

open Finset

namespace SumAxioms
variable (hi : ℕ) (f g h : ℕ → ℚ)

/-- empty range -/
theorem empty : ∑ b ∈ range 0, f b = 0 := by simp

/-- all summands >= 0 (else a witness): sum >= 0 -/
theorem sign_nonneg : (∃ d, d < hi ∧ f d < 0) ∨ 0 ≤ ∑ b ∈ range hi, f b := by
  by_cases H : ∃ d, d < hi ∧ f d < 0
  · exact Or.inl H
  · push Not at H
    exact Or.inr (sum_nonneg fun i hi' => H i (mem_range.mp hi'))

theorem sign_nonpos : (∃ d, d < hi ∧ 0 < f d) ∨ ∑ b ∈ range hi, f b ≤ 0 := by
  by_cases H : ∃ d, d < hi ∧ 0 < f d
  · exact Or.inl H
  · push Not at H
    exact Or.inr (sum_nonpos fun i hi' => H i (mem_range.mp hi'))

/-- congruence -/
theorem congr : (∃ d, d < hi ∧ f d ≠ g d) ∨ ∑ b ∈ range hi, f b = ∑ b ∈ range hi, g b := by
  by_cases H : ∃ d, d < hi ∧ f d ≠ g d
  · exact Or.inl H
  · push Not at H
    exact Or.inr (sum_congr rfl fun i hi' => H i (mem_range.mp hi'))

/-- monotone -/
theorem mono : (∃ d, d < hi ∧ g d < f d) ∨ ∑ b ∈ range hi, f b ≤ ∑ b ∈ range hi, g b := by
  by_cases H : ∃ d, d < hi ∧ g d < f d
  · exact Or.inl H
  · push Not at H
    exact Or.inr (sum_le_sum fun i hi' => H i (mem_range.mp hi'))

/-- difference at one point (also: an array changed at one index) -/
theorem point (p : ℕ) (hp : p < hi) :
    (∃ d, d < hi ∧ d ≠ p ∧ f d ≠ g d) ∨ ∑ b ∈ range hi, f b - ∑ b ∈ range hi, g b = f p - g p := by
  by_cases H : ∃ d, d < hi ∧ d ≠ p ∧ f d ≠ g d
  · exact Or.inl H
  · right
    push Not at H
    rw [← sum_sub_distrib]
    rw [sum_eq_single_of_mem p (mem_range.mpr hp)]
    intro b hb hbp
    rw [H b (mem_range.mp hb) hbp, sub_self]

/-- last summand -/
theorem last : (∃ d, d < hi ∧ f d ≠ g d) ∨
    ∑ b ∈ range (hi + 1), g b = ∑ b ∈ range hi, f b + g hi := by
  by_cases H : ∃ d, d < hi ∧ f d ≠ g d
  · exact Or.inl H
  · push Not at H
    right
    rw [sum_range_succ, sum_congr rfl fun i hi' => (H i (mem_range.mp hi')).symm]

/-- linear combinations: the combination of the sums is the sum of the combinations (then sign_* and empty apply) -/
theorem lincomb (c d : ℚ) :
    c * ∑ b ∈ range hi, f b + d * ∑ b ∈ range hi, g b = ∑ b ∈ range hi, (c * f b + d * g b) := by
  rw [sum_add_distrib, mul_sum, mul_sum]

/-- disjoint union: pointwise sum -/
theorem triple : (∃ d, d < hi ∧ f d ≠ g d + h d) ∨
    ∑ b ∈ range hi, f b = ∑ b ∈ range hi, g b + ∑ b ∈ range hi, h b := by
  rcases congr hi f (fun b => g b + h b) with H | H
  · exact Or.inl H
  · right; rw [H, sum_add_distrib]

/-- summands 0/1: at most hi -/
theorem card_le : (∃ d, d < hi ∧ f d < 0) ∨ (∃ e, e < hi ∧ 1 < f e) ∨ ∑ b ∈ range hi, f b ≤ hi := by
  rcases mono hi f (fun _ => 1) with ⟨d, h1, h2⟩ | H
  · exact Or.inr (Or.inl ⟨d, h1, h2⟩)
  · right; right; simpa using H

/-- all summands >= 1: at least hi -/
theorem card_ge : (∃ d, d < hi ∧ f d < 1) ∨ (hi : ℚ) ≤ ∑ b ∈ range hi, f b := by
  rcases mono hi (fun _ => 1) f with ⟨d, h1, h2⟩ | H
  · exact Or.inl ⟨d, h1, h2⟩
  · right; simpa using H

/-- a summand is at most the sum of non-negative summands -/
theorem member (p : ℕ) (hp : p < hi) (h0 : ∀ b, b < hi → 0 ≤ f b) : f p ≤ ∑ b ∈ range hi, f b :=
  single_le_sum (fun i hi' => h0 i (mem_range.mp hi')) (mem_range.mpr hp)

/-- proper subset of sets of candidates (0/1 summands) -/
theorem proper (F G : ℕ → ℤ) (p : ℕ) (hp : p < hi) (hlt : F p < G p) :
    (∃ d, d < hi ∧ G d < F d) ∨ ∑ b ∈ range hi, F b + 1 ≤ ∑ b ∈ range hi, G b := by
  by_cases H : ∃ d, d < hi ∧ G d < F d
  · exact Or.inl H
  · push Not at H
    exact Or.inr (Int.add_one_le_iff.mpr
      (sum_lt_sum (fun i hi' => H i (mem_range.mp hi')) ⟨p, mem_range.mpr hp, hlt⟩))

/-- a factor that does not depend on the index is pulled out -/
theorem factor (c : ℚ) : ∑ b ∈ range hi, c * f b = c * ∑ b ∈ range hi, f b := (mul_sum _ _ _).symm

/-- constant summands -/
theorem const (c : ℚ) : ∑ _b ∈ range hi, c = c * hi := by simp [mul_comm]

end SumAxioms
