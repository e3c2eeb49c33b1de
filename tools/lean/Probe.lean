/-
The covering lemma behind triangular probing, as the verifier uses it (core.py: probe_axioms).

A table has c + 1 = 2^k metadata positions; groups have W = 2^w bytes, w ≤ k.  The probe sequence starts at
(h >>> 7) &&& c and its j-th step adds j * W (the accumulated index i is j * W), always masked with c.
Then every slot s ≤ c lies in exactly one of the first 2^(k-w) windows, and every window starts at a distance from
the first one that is a multiple of W.
-/
import Mathlib

/-- triangular numbers -/
def tri : ℕ → ℕ
  | 0 => 0
  | j + 1 => tri j + (j + 1)

theorem two_tri (j : ℕ) : 2 * tri j = j * (j + 1) := by
  induction j with
  | zero => rfl
  | succ n ih => simp only [tri, mul_add, ih]; ring

theorem tri_inj (m a b : ℕ) (ha : a < 2 ^ m) (hb : b < 2 ^ m) (h : tri a % 2 ^ m = tri b % 2 ^ m) : a = b := by
  wlog hab : b ≤ a generalizing a b with H
  · exact (H b a hb ha h.symm (by omega)).symm
  by_contra hne
  have hm : tri b ≡ tri a [MOD 2 ^ m] := h.symm
  have hle : tri b ≤ tri a := by
    have h1 := two_tri a
    have h2 := two_tri b
    nlinarith
  have hd : 2 ^ m ∣ tri a - tri b := (Nat.modEq_iff_dvd' hle).mp hm
  have hprod : 2 * (tri a - tri b) = (a - b) * (a + b + 1) := by
    obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le hab
    have h1 := two_tri (b + d)
    have h2 := two_tri b
    rw [Nat.mul_sub, h1, h2]
    have : (b + d) * (b + d + 1) = b * (b + 1) + d * (b + d + b + 1) := by ring
    rw [this]; simp
  have hd2 : 2 ^ (m + 1) ∣ (a - b) * (a + b + 1) := by
    rw [← hprod, pow_succ, mul_comm]; exact Nat.mul_dvd_mul_left 2 hd
  rcases Nat.even_or_odd (a - b) with he | ho
  · have hodd : Odd (a + b + 1) := by
      obtain ⟨r, hr⟩ := he
      exact ⟨b + r, by omega⟩
    have hc : Nat.Coprime (2 ^ (m + 1)) (a + b + 1) := by
      apply Nat.Coprime.pow_left; exact (Nat.coprime_two_left).mpr hodd
    have := Nat.Coprime.dvd_of_dvd_mul_right hc hd2
    have h3 := Nat.le_of_dvd (by omega) this
    have : 2 ^ (m + 1) = 2 * 2 ^ m := by ring
    omega
  · have hc : Nat.Coprime (2 ^ (m + 1)) (a - b) := by
      apply Nat.Coprime.pow_left; exact (Nat.coprime_two_left).mpr ho
    have := Nat.Coprime.dvd_of_dvd_mul_left hc hd2
    have h3 := Nat.le_of_dvd (by omega) this
    have : 2 ^ (m + 1) = 2 * 2 ^ m := by ring
    omega

theorem tri_surj (m q : ℕ) (hq : q < 2 ^ m) : ∃ j, j < 2 ^ m ∧ tri j % 2 ^ m = q := by
  let f : Fin (2 ^ m) → Fin (2 ^ m) := fun j => ⟨tri j % 2 ^ m, Nat.mod_lt _ (by positivity)⟩
  have hi : Function.Injective f := by
    intro a b hab
    have : tri a % 2 ^ m = tri b % 2 ^ m := by simpa [f] using hab
    exact Fin.ext (tri_inj m a b a.2 b.2 this)
  obtain ⟨j, hj⟩ := (Finite.injective_iff_surjective.mp hi) ⟨q, hq⟩
  exact ⟨j, j.2, by simpa [f] using congrArg Fin.val hj⟩

/-- the window condition over the integers -/
theorem window_iff (N W d t : ℕ) (hW : 0 < W) (hN : 0 < N) (hd : d < N * W) :
    (d + (N * W) * t - W * t) % (N * W) < W ↔ t % N = d / W := by
  obtain ⟨q, r, hr, rfl⟩ : ∃ q r, r < W ∧ d = W * q + r := ⟨d / W, d % W, Nat.mod_lt _ hW, (Nat.div_add_mod d W).symm⟩
  have hq : q < N := by
    by_contra hcon
    have : N * W ≤ q * W := Nat.mul_le_mul_right W (by omega)
    nlinarith
  have hdiv : (W * q + r) / W = q := by
    rw [Nat.mul_add_div hW, Nat.div_eq_of_lt hr]; simp
  rw [hdiv]
  have e1 : W * q + r + N * W * t - W * t = W * (q + N * t - t) + r := by
    have hle : t ≤ q + N * t := le_trans (Nat.le_mul_of_pos_left t hN) (Nat.le_add_left _ _)
    zify [hle, (show W * t ≤ W * q + r + N * W * t by nlinarith [Nat.mul_le_mul_left W (Nat.le_mul_of_pos_left t hN)])]
    ring
  rw [e1]
  have e2 : (W * (q + N * t - t) + r) % (N * W) = W * ((q + N * t - t) % N) + r := by
    rw [mul_comm N W, Nat.mod_mul]
    rw [Nat.mul_add_mod, Nat.mod_eq_of_lt hr, Nat.mul_add_div hW, Nat.div_eq_of_lt hr]
    simp [add_comm]
  rw [e2]
  have hle : t ≤ q + N * t := le_trans (Nat.le_mul_of_pos_left t hN) (Nat.le_add_left _ _)
  constructor
  · intro h
    have h0 : (q + N * t - t) % N = 0 := by
      by_contra hne
      have : 1 ≤ (q + N * t - t) % N := Nat.one_le_iff_ne_zero.mpr hne
      have : W * 1 ≤ W * ((q + N * t - t) % N) := Nat.mul_le_mul_left W this
      omega
    have : t ≡ q + N * t [MOD N] := (Nat.modEq_iff_dvd' hle).mpr (Nat.dvd_of_mod_eq_zero h0)
    have h2 : t % N = (q + N * t) % N := this
    rw [h2, Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt hq]
  · intro h
    have : t ≡ q + N * t [MOD N] := by
      show t % N = (q + N * t) % N
      rw [h, Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt hq]
    have h0 := Nat.mod_eq_zero_of_dvd ((Nat.modEq_iff_dvd' hle).mp this)
    rw [h0]; omega

/-- the probe sequence of the code: position of the j-th window -/
def P (w : ℕ) (c h : BitVec 64) : ℕ → BitVec 64
  | 0 => (h >>> 7) &&& c
  | j + 1 => (P w c h j + BitVec.ofNat 64 ((j + 1) * 2 ^ w)) &&& c

theorem and_mask (k : ℕ) (c x : BitVec 64) (hc : c.toNat = 2 ^ k - 1) : (x &&& c).toNat = x.toNat % 2 ^ k := by
  rw [BitVec.toNat_and, hc, Nat.and_two_pow_sub_one_eq_mod]

theorem P_val (k w : ℕ) (hk : k ≤ 64) (c h : BitVec 64) (hc : c.toNat = 2 ^ k - 1) (j : ℕ) :
    (P w c h j).toNat = ((P w c h 0).toNat + 2 ^ w * tri j) % 2 ^ k := by
  have hdvd : 2 ^ k ∣ 2 ^ 64 := Nat.pow_dvd_pow 2 hk
  induction j with
  | zero =>
    simp only [tri, mul_zero, add_zero, P]
    rw [and_mask k c _ hc, Nat.mod_mod]
  | succ n ih =>
    have : P w c h (n + 1) = (P w c h n + BitVec.ofNat 64 ((n + 1) * 2 ^ w)) &&& c := rfl
    rw [this, and_mask k c _ hc, BitVec.toNat_add, BitVec.toNat_ofNat, ih]
    rw [Nat.mod_mod_of_dvd _ hdvd]
    conv_lhs => rw [Nat.add_mod, Nat.mod_mod_of_dvd _ hdvd, Nat.mod_mod]
    rw [← Nat.add_mod]
    congr 1
    simp only [tri]; ring

theorem dist_val (k w : ℕ) (hk : k ≤ 64) (c h s : BitVec 64) (hc : c.toNat = 2 ^ k - 1) (hw : w ≤ k) (j : ℕ) :
    ((s - P w c h j) &&& c).toNat
      = ((s - P w c h 0 &&& c).toNat + (2 ^ (k - w) * 2 ^ w) * tri j - 2 ^ w * tri j) % (2 ^ (k - w) * 2 ^ w) := by
  have hdvd : 2 ^ k ∣ 2 ^ 64 := Nat.pow_dvd_pow 2 hk
  have hNW : 2 ^ (k - w) * 2 ^ w = 2 ^ k := by rw [← pow_add]; congr 1; omega
  rw [hNW, and_mask k c _ hc, and_mask k c _ hc, BitVec.toNat_sub, BitVec.toNat_sub]
  rw [Nat.mod_mod_of_dvd _ hdvd, Nat.mod_mod_of_dvd _ hdvd, P_val k w hk c h hc j]
  set p := (P w c h 0).toNat with hp
  have hplt : p < 2 ^ 64 := (P w c h 0).isLt
  have hmlt : (p + 2 ^ w * tri j) % 2 ^ k ≤ 2 ^ 64 := le_trans (le_of_lt (Nat.mod_lt _ (by positivity))) (Nat.pow_le_pow_right (by norm_num) hk)
  have hle : 2 ^ w * tri j ≤ 2 ^ k * tri j := Nat.mul_le_mul_right _ (Nat.pow_le_pow_right (by norm_num) hw)
  have key : ((2 ^ 64 - (p + 2 ^ w * tri j) % 2 ^ k + s.toNat : ℕ) : ℤ) ≡ (((2 ^ 64 - p + s.toNat) % 2 ^ k + 2 ^ k * tri j - 2 ^ w * tri j : ℕ) : ℤ) [ZMOD ((2 ^ k : ℕ) : ℤ)] := by
    have hle2 : 2 ^ w * tri j ≤ (2 ^ 64 - p + s.toNat) % 2 ^ k + 2 ^ k * tri j := le_trans hle (Nat.le_add_left _ _)
    rw [Nat.cast_sub hle2, Nat.cast_add, Nat.cast_add, Nat.cast_sub hmlt, Int.natCast_mod, Int.natCast_mod, Nat.cast_add (2 ^ 64 - p), Nat.cast_sub (le_of_lt hplt)]
    have h64 : ((2 ^ 64 : ℕ) : ℤ) ≡ 0 [ZMOD ((2 ^ k : ℕ) : ℤ)] := by
      rw [Int.modEq_zero_iff_dvd]; exact_mod_cast hdvd
    have hk0 : ((2 ^ k * tri j : ℕ) : ℤ) ≡ 0 [ZMOD ((2 ^ k : ℕ) : ℤ)] := by
      rw [Int.modEq_zero_iff_dvd]; exact_mod_cast Dvd.intro _ rfl
    have a1 := Int.mod_modEq ((p + 2 ^ w * tri j : ℕ) : ℤ) ((2 ^ k : ℕ) : ℤ)
    have a2 := Int.mod_modEq (((2 ^ 64 : ℕ) : ℤ) - (p : ℤ) + (s.toNat : ℤ)) ((2 ^ k : ℕ) : ℤ)
    have lhs := (h64.sub a1).add_right (s.toNat : ℤ)
    have rhs := ((a2.trans ((h64.sub (Int.ModEq.refl (p : ℤ))).add_right (s.toNat : ℤ))).add hk0).sub (Int.ModEq.refl ((2 ^ w * tri j : ℕ) : ℤ))
    refine lhs.trans (Int.ModEq.symm (rhs.trans ?_))
    have : (0 - (p : ℤ) + (s.toNat : ℤ) + 0 - ((2 ^ w * tri j : ℕ) : ℤ)) = 0 - ((p + 2 ^ w * tri j : ℕ) : ℤ) + (s.toNat : ℤ) := by push_cast; ring
    rw [this]
  exact (Int.natCast_modEq_iff.mp key)

/-- every slot lies in exactly one probe window (the case of tables of at least one group) -/
theorem cover (k w : ℕ) (hk : k ≤ 64) (hw : w ≤ k) (c h s : BitVec 64) (hc : c.toNat = 2 ^ k - 1) :
    ∃! j : ℕ, j < 2 ^ (k - w) ∧ ((s - P w c h j) &&& c).toNat < 2 ^ w := by
  set d := ((s - P w c h 0) &&& c).toNat with hd
  have hNW : 2 ^ (k - w) * 2 ^ w = 2 ^ k := by rw [← pow_add]; congr 1; omega
  have hdlt : d < 2 ^ (k - w) * 2 ^ w := by
    rw [hNW, hd, and_mask k c _ hc]; exact Nat.mod_lt _ (by positivity)
  have hiff : ∀ j, ((s - P w c h j) &&& c).toNat < 2 ^ w ↔ tri j % 2 ^ (k - w) = d / 2 ^ w := by
    intro j
    rw [dist_val k w hk c h s hc hw j]
    exact window_iff (2 ^ (k - w)) (2 ^ w) d (tri j) (by positivity) (by positivity) hdlt
  have hq : d / 2 ^ w < 2 ^ (k - w) := Nat.div_lt_of_lt_mul (by rw [mul_comm]; exact hdlt)
  obtain ⟨j, hj, hjt⟩ := tri_surj (k - w) (d / 2 ^ w) hq
  refine ⟨j, ⟨hj, (hiff j).mpr hjt⟩, ?_⟩
  rintro j' ⟨hj', hjt'⟩
  exact tri_inj (k - w) j' j hj' hj (((hiff j').mp hjt').trans hjt.symm)

/-- tables smaller than a group: the first window covers everything -/
theorem cover_small (k w : ℕ) (hkw : k ≤ w) (c h s : BitVec 64) (hc : c.toNat = 2 ^ k - 1) :
    ((s - P w c h 0) &&& c).toNat < 2 ^ w := by
  rw [and_mask k c _ hc]
  exact lt_of_lt_of_le (Nat.mod_lt _ (by positivity)) (Nat.pow_le_pow_right (by norm_num) hkw)

/-- windows start at multiples of the group size from the first one -/
theorem aligned (k w : ℕ) (hk : k ≤ 64) (hw : w ≤ k) (c h : BitVec 64) (hc : c.toNat = 2 ^ k - 1) (j : ℕ) :
    2 ^ w ∣ ((P w c h j - P w c h 0) &&& c).toNat := by
  have hdvd : 2 ^ k ∣ 2 ^ 64 := Nat.pow_dvd_pow 2 hk
  have hwk : 2 ^ w ∣ 2 ^ k := Nat.pow_dvd_pow 2 hw
  rw [and_mask k c _ hc, BitVec.toNat_sub, Nat.mod_mod_of_dvd _ hdvd]
  rw [Nat.dvd_mod_iff hwk]
  rw [P_val k w hk c h hc j]
  set p := (P w c h 0).toNat with hp
  have hplt : p < 2 ^ 64 := (P w c h 0).isLt
  have h1 : (2 ^ 64 - p + (p + 2 ^ w * tri j) % 2 ^ k) % 2 ^ w = 0 := by
    rw [Nat.add_mod, Nat.mod_mod_of_dvd _ hwk, ← Nat.add_mod]
    have : 2 ^ 64 - p + (p + 2 ^ w * tri j) = 2 ^ 64 + 2 ^ w * tri j := by omega
    rw [this]
    exact Nat.mod_eq_zero_of_dvd (Nat.dvd_add (dvd_trans hwk hdvd) (Dvd.intro _ rfl))
  exact Nat.dvd_of_mod_eq_zero h1

#print axioms cover
#print axioms cover_small
#print axioms aligned
