import Mathlib.Analysis.SpecialFunctions.Complex.Circle
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Tactic.LinearCombination

/-! Discrete Fourier inversion, in the real form in which kvc writes transforms (kvc/dep.py: dft_at, rdft_at, irdft_at). -/

open Finset Complex

noncomputable section

/-- sum over w < N of exp(2 pi i (l - t) w / N) -/
theorem roots_sum (N : ℕ) (hN : 0 < N) (t l : ℕ) (ht : t < N) (hl : l < N) :
    ∑ w ∈ range N, cexp (2 * Real.pi * I * ((l : ℂ) - t) * w / N) = if t = l then (N : ℂ) else 0 := by
  have hN0 : (N : ℂ) ≠ 0 := by exact_mod_cast hN.ne'
  have hpow : ∀ w : ℕ, cexp (2 * Real.pi * I * ((l : ℂ) - t) * w / N)
      = (cexp (2 * Real.pi * I * ((l : ℂ) - t) / N)) ^ w := by
    intro w
    rw [← Complex.exp_nat_mul]
    congr 1
    ring
  simp only [hpow]
  split_ifs with h
  · subst h
    simp
  · set z := cexp (2 * Real.pi * I * ((l : ℂ) - t) / N) with hz
    have hz1 : z ≠ 1 := by
      intro h1
      rw [hz, Complex.exp_eq_one_iff] at h1
      obtain ⟨m, hm⟩ := h1
      have hpi : (2 * Real.pi * I : ℂ) ≠ 0 := by
        simp [Real.pi_ne_zero]
      have h2 : ((l : ℂ) - t) = m * N := by
        have h3 : (2 * Real.pi * I : ℂ) * ((l : ℂ) - t) = (2 * Real.pi * I) * (m * N) := by
          field_simp at hm
          linear_combination (2 * Real.pi * I : ℂ) * hm
        exact mul_left_cancel₀ hpi h3
      have h4 : ((l : ℤ) - t) = m * N := by exact_mod_cast h2
      have h5 : |(l : ℤ) - t| < N := by
        rw [abs_lt]; constructor <;> omega
      rw [h4, abs_mul] at h5
      have h6 : m = 0 := by
        by_contra hm0
        have : 1 ≤ |m| := Int.one_le_abs hm0
        have h7 : (|(N : ℤ)|) = N := by simp
        rw [h7] at h5
        nlinarith
      rw [h6] at h4
      have : l = t := by
        have : (l : ℤ) = t := by linarith
        exact_mod_cast this
      exact h this.symm
    have hzN : z ^ N = 1 := by
      rw [hz, ← Complex.exp_nat_mul, Complex.exp_eq_one_iff]
      refine ⟨(l : ℤ) - t, ?_⟩
      push_cast
      field_simp
    have hg := mul_geom_sum z N
    rw [hzN, sub_self] at hg
    rcases mul_eq_zero.mp hg with h1 | h1
    · exact absurd (sub_eq_zero.mp h1) hz1
    · exact h1

/-- the forward N-point transform of 1/N times the inverse one of X is X -/
theorem dft_inversion_complex (N : ℕ) (hN : 0 < N) (X : ℕ → ℂ) (t : ℕ) (ht : t < N) :
    ∑ w ∈ range N, ((∑ k ∈ range N, X k * cexp (2 * Real.pi * I * k * w / N)) / N) * cexp (-(2 * Real.pi * I * t * w / N))
      = X t := by
  have hN0 : (N : ℂ) ≠ 0 := by exact_mod_cast hN.ne'
  have h1 : ∀ w ∈ range N, ((∑ k ∈ range N, X k * cexp (2 * Real.pi * I * k * w / N)) / N) * cexp (-(2 * Real.pi * I * t * w / N))
      = ∑ k ∈ range N, (X k / N) * cexp (2 * Real.pi * I * ((k : ℂ) - t) * w / N) := by
    intro w _
    rw [Finset.sum_div, Finset.sum_mul]
    apply Finset.sum_congr rfl
    intro k _
    have : cexp (2 * Real.pi * I * ((k : ℂ) - t) * w / N)
        = cexp (2 * Real.pi * I * k * w / N) * cexp (-(2 * Real.pi * I * t * w / N)) := by
      rw [← Complex.exp_add]
      congr 1
      ring
    rw [this]
    ring
  rw [Finset.sum_congr rfl h1, Finset.sum_comm]
  have h2 : ∀ k ∈ range N, ∑ w ∈ range N, (X k / N) * cexp (2 * Real.pi * I * ((k : ℂ) - t) * w / N)
      = if t = k then X k else 0 := by
    intro k hk
    rw [← Finset.mul_sum, roots_sum N hN t k ht (mem_range.mp hk)]
    split_ifs
    · field_simp
    · simp
  rw [Finset.sum_congr rfl h2, Finset.sum_ite_eq]
  simp [ht]

/-- the same the other way round: the inverse transform of the forward one is N times the signal -/
theorem idft_inversion_complex (N : ℕ) (hN : 0 < N) (x : ℕ → ℂ) (i : ℕ) (hi : i < N) :
    ∑ k ∈ range N, (∑ w ∈ range N, x w * cexp (-(2 * Real.pi * I * k * w / N))) * cexp (2 * Real.pi * I * k * i / N)
      = N * x i := by
  have h1 : ∀ k ∈ range N, (∑ w ∈ range N, x w * cexp (-(2 * Real.pi * I * k * w / N))) * cexp (2 * Real.pi * I * k * i / N)
      = ∑ w ∈ range N, x w * cexp (2 * Real.pi * I * ((i : ℂ) - w) * k / N) := by
    intro k _
    rw [Finset.sum_mul]
    apply Finset.sum_congr rfl
    intro w _
    have : cexp (2 * Real.pi * I * ((i : ℂ) - w) * k / N)
        = cexp (-(2 * Real.pi * I * k * w / N)) * cexp (2 * Real.pi * I * k * i / N) := by
      rw [← Complex.exp_add]
      congr 1
      ring
    rw [this]
    ring
  rw [Finset.sum_congr rfl h1, Finset.sum_comm]
  have h2 : ∀ w ∈ range N, ∑ k ∈ range N, x w * cexp (2 * Real.pi * I * ((i : ℂ) - w) * k / N)
      = if i = w then N * x w else 0 := by
    intro w hw
    rw [← Finset.mul_sum, roots_sum N hN w i (mem_range.mp hw) hi]
    by_cases h : w = i
    · subst h; simp; ring
    · have h' : ¬ i = w := fun e => h e.symm
      simp [h, h']
  rw [Finset.sum_congr rfl h2, Finset.sum_ite_eq]
  simp [hi]

/-! ### in real and imaginary parts -/

theorem cis (a b th : ℝ) : (⟨a, b⟩ : ℂ) * cexp (th * I)
    = ⟨a * Real.cos th - b * Real.sin th, a * Real.sin th + b * Real.cos th⟩ := by
  rw [Complex.exp_mul_I]
  apply Complex.ext <;> simp [Complex.cos_ofReal_re, Complex.sin_ofReal_re, Complex.cos_ofReal_im, Complex.sin_ofReal_im]

theorem mk_sum (s : Finset ℕ) (f g : ℕ → ℝ) : ∑ i ∈ s, (⟨f i, g i⟩ : ℂ) = ⟨∑ i ∈ s, f i, ∑ i ∈ s, g i⟩ := by
  apply Complex.ext <;> simp

/-- kvc's dft_at: sum over w < n of x[w] exp(sign 2 pi j k w / n), as (re, im) -/
def dftRe (xr xi : ℕ → ℝ) (n : ℕ) (k : ℕ) (sign : ℝ) : ℝ :=
  ∑ w ∈ range n, (xr w * Real.cos (2 * sign * Real.pi * k * w / n) - xi w * Real.sin (2 * sign * Real.pi * k * w / n))
def dftIm (xr xi : ℕ → ℝ) (n : ℕ) (k : ℕ) (sign : ℝ) : ℝ :=
  ∑ w ∈ range n, (xr w * Real.sin (2 * sign * Real.pi * k * w / n) + xi w * Real.cos (2 * sign * Real.pi * k * w / n))

theorem dft_mk (xr xi : ℕ → ℝ) (n k : ℕ) (sign : ℝ) :
    (⟨dftRe xr xi n k sign, dftIm xr xi n k sign⟩ : ℂ)
      = ∑ w ∈ range n, (⟨xr w, xi w⟩ : ℂ) * cexp ((2 * sign * Real.pi * k * w / n : ℝ) * I) := by
  rw [dftRe, dftIm, ← mk_sum]
  exact Finset.sum_congr rfl fun w _ => (cis _ _ _).symm

/-- used for C19: the forward n-point transform of 1/n times the inverse one of X is X -/
theorem dft_inversion (n : ℕ) (hn : 0 < n) (Xr Xi : ℕ → ℝ) (t : ℕ) (ht : t < n) :
    dftRe (fun w => dftRe Xr Xi n w 1 / n) (fun w => dftIm Xr Xi n w 1 / n) n t (-1) = Xr t ∧
    dftIm (fun w => dftRe Xr Xi n w 1 / n) (fun w => dftIm Xr Xi n w 1 / n) n t (-1) = Xi t := by
  have h := dft_inversion_complex n hn (fun k => ⟨Xr k, Xi k⟩) t ht
  have e : (⟨dftRe (fun w => dftRe Xr Xi n w 1 / n) (fun w => dftIm Xr Xi n w 1 / n) n t (-1),
      dftIm (fun w => dftRe Xr Xi n w 1 / n) (fun w => dftIm Xr Xi n w 1 / n) n t (-1)⟩ : ℂ) = ⟨Xr t, Xi t⟩ := by
    rw [dft_mk, ← h]
    apply Finset.sum_congr rfl
    intro w _
    have h1 : (⟨dftRe Xr Xi n w 1 / n, dftIm Xr Xi n w 1 / n⟩ : ℂ)
        = (∑ k ∈ range n, (⟨Xr k, Xi k⟩ : ℂ) * cexp (2 * Real.pi * I * k * w / n)) / n := by
      have h2 : (⟨dftRe Xr Xi n w 1 / n, dftIm Xr Xi n w 1 / n⟩ : ℂ)
          = (⟨dftRe Xr Xi n w 1, dftIm Xr Xi n w 1⟩ : ℂ) / n := by
        apply Complex.ext <;> simp
      rw [h2, dft_mk]
      congr 1
      apply Finset.sum_congr rfl
      intro k _
      congr 2
      push_cast
      ring
    rw [h1]
    congr 2
    push_cast
    ring
  exact ⟨congrArg Complex.re e, congrArg Complex.im e⟩

/-- kvc's rdft_at: bins of the transform of a real signal -/
def rdftRe (x : ℕ → ℝ) (n k : ℕ) : ℝ := ∑ w ∈ range n, x w * Real.cos (-2 * Real.pi * k * w / n)
def rdftIm (x : ℕ → ℝ) (n k : ℕ) : ℝ := ∑ w ∈ range n, x w * Real.sin (-2 * Real.pi * k * w / n)

/-- kvc's irdft_at: X[0].re + cos(pi i) X[n/2].re + 2 sum over w < n/2 - 1 of Re(X[w+1] exp(2 pi j (w+1) i / n)) -/
def irdft (Xr Xi : ℕ → ℝ) (n i : ℕ) : ℝ :=
  Xr 0 + Real.cos (Real.pi * i) * Xr (n / 2)
    + 2 * ∑ w ∈ range (n / 2 - 1), (Xr (w + 1) * Real.cos (2 * Real.pi * ((w + 1 : ℕ) : ℝ) * i / n)
        - Xi (w + 1) * Real.sin (2 * Real.pi * ((w + 1 : ℕ) : ℝ) * i / n))

/-- the term of bin k of the inverse transform, real part -/
def bin (x : ℕ → ℝ) (n i k : ℕ) : ℝ :=
  rdftRe x n k * Real.cos (2 * Real.pi * k * i / n) - rdftIm x n k * Real.sin (2 * Real.pi * k * i / n)

theorem bin_sum (x : ℕ → ℝ) (n i k : ℕ) :
    bin x n i k = ∑ w ∈ range n, x w * Real.cos (2 * Real.pi * ((i : ℝ) - w) * k / n) := by
  rw [bin, rdftRe, rdftIm, Finset.sum_mul, Finset.sum_mul, ← Finset.sum_sub_distrib]
  apply Finset.sum_congr rfl
  intro w _
  have : 2 * Real.pi * ((i : ℝ) - w) * k / n = 2 * Real.pi * k * i / n + -2 * Real.pi * k * w / n := by ring
  rw [this, Real.cos_add]
  ring

theorem bin_all (x : ℕ → ℝ) (n i : ℕ) (hn : 0 < n) (hi : i < n) : ∑ k ∈ range n, bin x n i k = n * x i := by
  have h := idft_inversion_complex n hn (fun w => (x w : ℂ)) i hi
  have e : ∀ k ∈ range n, (∑ w ∈ range n, (x w : ℂ) * cexp (-(2 * Real.pi * I * k * w / n))) * cexp (2 * Real.pi * I * k * i / n)
      = ∑ w ∈ range n, (x w : ℂ) * cexp ((2 * Real.pi * ((i : ℝ) - w) * k / n : ℝ) * I) := by
    intro k _
    rw [Finset.sum_mul]
    apply Finset.sum_congr rfl
    intro w _
    rw [mul_assoc, ← Complex.exp_add]
    congr 2
    push_cast
    ring
  rw [Finset.sum_congr rfl e] at h
  have h2 := congrArg Complex.re h
  rw [Complex.re_sum] at h2
  have e2 : ∀ k ∈ range n, (∑ w ∈ range n, (x w : ℂ) * cexp ((2 * Real.pi * ((i : ℝ) - w) * k / n : ℝ) * I)).re = bin x n i k := by
    intro k _
    rw [bin_sum, Complex.re_sum]
    apply Finset.sum_congr rfl
    intro w _
    rw [Complex.re_ofReal_mul, Complex.exp_ofReal_mul_I_re]
  rw [Finset.sum_congr rfl e2] at h2
  rw [h2]
  simp

/-- bins k and n - k contribute the same -/
theorem bin_mirror (x : ℕ → ℝ) (n i k : ℕ) (hn : 0 < n) (hk : k ≤ n) : bin x n i (n - k) = bin x n i k := by
  rw [bin_sum, bin_sum]
  apply Finset.sum_congr rfl
  intro w _
  congr 1
  have hn0 : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have : 2 * Real.pi * ((i : ℝ) - w) * ((n - k : ℕ) : ℝ) / n
      = -(2 * Real.pi * ((i : ℝ) - w) * k / n) + (((i : ℤ) - w : ℤ) : ℝ) * (2 * Real.pi) := by
    rw [Nat.cast_sub hk]
    push_cast
    field_simp
    ring
  rw [this, Real.cos_add_int_mul_two_pi, Real.cos_neg]

/-- used for C26: the inverse real transform of the real transform is n times the signal (n even) -/
theorem real_dft_inversion (h : ℕ) (hh : 0 < h) (x : ℕ → ℝ) (i : ℕ) (hi : i < 2 * h) :
    irdft (rdftRe x (2 * h)) (rdftIm x (2 * h)) (2 * h) i = (2 * h : ℕ) * x i := by
  have hn : 0 < 2 * h := by omega
  have hn0 : ((2 * h : ℕ) : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  have hh0 : (h : ℝ) ≠ 0 := by exact_mod_cast hh.ne'
  rw [← bin_all x (2 * h) i hn hi]
  obtain ⟨m, rfl⟩ : ∃ m, h = m + 1 := ⟨h - 1, by omega⟩
  have hd : 2 * (m + 1) / 2 = m + 1 := by omega
  rw [irdft, hd, Nat.add_sub_cancel]
  have b0 : bin x (2 * (m + 1)) i 0 = rdftRe x (2 * (m + 1)) 0 := by
    simp [bin]
  have bh : bin x (2 * (m + 1)) i (m + 1) = Real.cos (Real.pi * i) * rdftRe x (2 * (m + 1)) (m + 1) := by
    rw [bin]
    have a1 : 2 * Real.pi * ((m + 1 : ℕ) : ℝ) * i / ((2 * (m + 1) : ℕ) : ℝ) = (i : ℕ) * Real.pi := by
      push_cast
      field_simp
    rw [a1, Real.sin_nat_mul_pi]
    have a2 : (i : ℝ) * Real.pi = Real.pi * i := by ring
    rw [a2]
    ring
  have split : ∑ k ∈ range (2 * (m + 1)), bin x (2 * (m + 1)) i k
      = bin x (2 * (m + 1)) i 0 + ∑ w ∈ range m, bin x (2 * (m + 1)) i (w + 1) + bin x (2 * (m + 1)) i (m + 1)
        + ∑ w ∈ range m, bin x (2 * (m + 1)) i (m + 2 + w) := by
    have e : 2 * (m + 1) = (m + 2) + m := by ring
    conv_lhs => rw [show range (2 * (m + 1)) = range ((m + 2) + m) by rw [e]]
    rw [Finset.sum_range_add, Finset.sum_range_succ, Finset.sum_range_succ']
    ring
  have mirror : ∑ w ∈ range m, bin x (2 * (m + 1)) i (m + 2 + w) = ∑ w ∈ range m, bin x (2 * (m + 1)) i (w + 1) := by
    rw [← Finset.sum_range_reflect (fun w => bin x (2 * (m + 1)) i (w + 1)) m]
    apply Finset.sum_congr rfl
    intro w hw
    have hw' := mem_range.mp hw
    have q := bin_mirror x (2 * (m + 1)) i (m - 1 - w + 1) hn (by omega)
    rw [← q]
    congr 1
    omega
  rw [split, mirror, b0, bh]
  have body : ∑ w ∈ range m, (rdftRe x (2 * (m + 1)) (w + 1) * Real.cos (2 * Real.pi * ((w + 1 : ℕ) : ℝ) * i / ((2 * (m + 1) : ℕ) : ℝ))
        - rdftIm x (2 * (m + 1)) (w + 1) * Real.sin (2 * Real.pi * ((w + 1 : ℕ) : ℝ) * i / ((2 * (m + 1) : ℕ) : ℝ)))
      = ∑ w ∈ range m, bin x (2 * (m + 1)) i (w + 1) := by
    apply Finset.sum_congr rfl
    intro w _
    rw [bin]
  rw [body]
  ring

end

#print axioms dft_inversion
#print axioms real_dft_inversion
