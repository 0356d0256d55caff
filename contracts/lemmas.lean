/- The lemmas that the contracts of c_div.hh assume about natural numbers, for every width and every value.
   product q y = q * y     scaled x k = x * 2^k     pow2 k = 2^k     with_ q j = q ||| 2^j
   top x h  :=  x / 2^h = 1 (h is the position of the most significant one of x)
   low0 q k :=  q % 2^k = 0 (the bits of q below k are 0)
   All values stay below 2^(2N) under the guards in the C++ text, so arithmetic modulo 2^(2N) is exact there. -/

theorem l_zero (y : Nat) : 0 * y = 0 := by simp
theorem l_one (q : Nat) : q * 1 = q := by simp
theorem l_self (y : Nat) : 1 * y = y := by simp

theorem l_euclid (a b : Nat) : (a / b) * b + a % b = a := by
  rw [Nat.mul_comm]; exact Nat.div_add_mod a b

theorem with_add (q j : Nat) (h : q % 2 ^ (j + 1) = 0) : q ||| 2 ^ j = q + 2 ^ j := by
  have hq : q = 2 ^ (j + 1) * (q / 2 ^ (j + 1)) := by
    have := Nat.div_add_mod q (2 ^ (j + 1)); omega
  have hlt : 2 ^ j < 2 ^ (j + 1) := Nat.pow_lt_pow_right (by omega) (by omega)
  rw [hq]
  exact (Nat.two_pow_add_eq_or_of_lt hlt _).symm

theorem l_with (q y j : Nat) (h : q % 2 ^ (j + 1) = 0) : (q ||| 2 ^ j) * y = q * y + y * 2 ^ j := by
  rw [with_add q j h, Nat.add_mul, Nat.mul_comm (2 ^ j) y]

theorem l_low0_zero (k : Nat) : 0 % 2 ^ k = 0 := by simp

theorem l_low0_next (q k : Nat) (h : q % 2 ^ (k + 1) = 0) : q % 2 ^ k = 0 ∧ (q ||| 2 ^ k) % 2 ^ k = 0 := by
  have h1 : q % 2 ^ k = 0 := by
    have d : 2 ^ (k + 1) ∣ q := Nat.dvd_of_mod_eq_zero h
    have e : 2 ^ k ∣ 2 ^ (k + 1) := Nat.pow_dvd_pow 2 (by omega)
    exact Nat.mod_eq_zero_of_dvd (Nat.dvd_trans e d)
  refine ⟨h1, ?_⟩
  rw [with_add q k h, Nat.add_mod_right]
  exact h1

theorem l_scaled_0 (x : Nat) : x * 2 ^ 0 = x := by simp

theorem l_scaled_next (x k : Nat) : x * 2 ^ (k + 1) = x * 2 ^ k + x * 2 ^ k := by
  rw [Nat.pow_succ, ← Nat.mul_assoc]; omega

theorem l_top (x h k : Nat) (t : x / 2 ^ h = 1) : 2 ^ (h + k) ≤ x * 2 ^ k ∧ x * 2 ^ k < 2 ^ (h + k + 1) := by
  have p : 0 < 2 ^ h := Nat.two_pow_pos h
  have pk : 0 < 2 ^ k := Nat.two_pow_pos k
  have dm := Nat.div_add_mod x (2 ^ h)
  have ml := Nat.mod_lt x p
  rw [t, Nat.mul_one] at dm
  have lo : 2 ^ h ≤ x := by omega
  have hi : x < 2 ^ h * 2 := by omega
  constructor
  · rw [Nat.pow_add]; exact Nat.mul_le_mul_right _ lo
  · have e : 2 ^ (h + k + 1) = (2 ^ h * 2) * 2 ^ k := by
      rw [Nat.pow_succ, Nat.pow_add, Nat.mul_assoc, Nat.mul_comm (2 ^ k) 2, ← Nat.mul_assoc]
    rw [e]; exact Nat.mul_lt_mul_of_pos_right hi pk

theorem l_pow2 (a b : Nat) (h : a ≤ b) : 2 ^ a ≤ 2 ^ b := Nat.pow_le_pow_right (by omega) h

/- the contract of div_mod_unsigned: what the long division establishes determines quotient and remainder -/
theorem unique (x y q r : Nat) (h : q * y + r = x) (lt : r < y) : q = x / y ∧ r = x % y := by
  have py : 0 < y := by omega
  subst h
  rw [Nat.mul_comm q y]
  refine ⟨?_, ?_⟩
  · rw [Nat.mul_add_div py, Nat.div_eq_of_lt lt]; omega
  · rw [Nat.mul_add_mod, Nat.mod_eq_of_lt lt]
#print axioms l_with
#print axioms l_top
#print axioms unique
