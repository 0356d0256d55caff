import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Data.Nat.ModEq
import Mathlib.Tactic.Ring
/- The lemma that h_bnmul of c_mul.hh assumes: x and y are given by s limbs of 64 bits, N ≤ 64 s.  Modulo 2^N the product is the
   sum of the partial products x_i * y_j * 2^(64 (i + j)) with i + j < s. -/
open Finset
theorem sum_modEq (n : ℕ) (s : ℕ) (f g : ℕ → ℕ) (h : ∀ i ∈ range s, f i % n = g i % n) :
    (∑ i ∈ range s, f i) % n = (∑ i ∈ range s, g i) % n := by
  rw [sum_nat_mod, sum_nat_mod (f := g), sum_congr rfl h]
theorem l_limbs (s N : ℕ) (h : N ≤ 64 * s) (x y : ℕ → ℕ) :
    ((∑ i ∈ range s, x i * 2 ^ (64 * i)) * (∑ j ∈ range s, y j * 2 ^ (64 * j))) % 2 ^ N
      = (∑ i ∈ range s, ∑ j ∈ range s, if i + j < s then x i * y j * 2 ^ (64 * (i + j)) else 0) % 2 ^ N := by
  rw [sum_mul_sum]
  refine sum_modEq _ _ _ _ fun i _ => sum_modEq _ _ _ _ fun j _ => ?_
  have e : x i * 2 ^ (64 * i) * (y j * 2 ^ (64 * j)) = x i * y j * 2 ^ (64 * (i + j)) := by
    rw [Nat.mul_add, pow_add]; ring
  rw [e]
  split
  · rfl
  · rename_i hij
    have d : 2 ^ N ∣ 2 ^ (64 * (i + j)) := pow_dvd_pow 2 (by omega)
    rw [Nat.zero_mod]
    exact Nat.mod_eq_zero_of_dvd (Dvd.dvd.mul_left d _)
#print axioms l_limbs
