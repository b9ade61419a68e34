import Mathlib.Tactic
import Mathlib.Analysis.Calculus.IteratedDeriv.Lemmas
import Mathlib.Algebra.Group.ForwardDiff
import Mathlib.Analysis.Calculus.FDeriv.Symmetric
import Mathlib.Analysis.Calculus.ContDiff.Basic
import Mathlib.Analysis.Calculus.LineDeriv.Basic
open Finset
namespace Bez
noncomputable section
/-- Bernstein basis function -/
def bern (n i : ℕ) (x : ℝ) : ℝ := (n.choose i) * x ^ i * (1 - x) ^ (n - i)
/-- value of the Bezier curve with coefficients p -/
def ev1 (n : ℕ) (p : ℕ → ℝ) (x : ℝ) : ℝ := ∑ i ∈ range (n + 1), bern n i x * p i

theorem ev1_congr {n : ℕ} {p q : ℕ → ℝ} (h : ∀ i, i ≤ n → p i = q i) (x : ℝ) : ev1 n p x = ev1 n q x :=
  Finset.sum_congr rfl fun i hi => by rw [h i (by simpa [Nat.lt_succ_iff] using hi)]
theorem ev1_add (n : ℕ) (p q : ℕ → ℝ) (x : ℝ) : ev1 n (fun i => p i + q i) x = ev1 n p x + ev1 n q x := by
  simp [ev1, mul_add, sum_add_distrib]
theorem ev1_smul (n : ℕ) (p : ℕ → ℝ) (c x : ℝ) : ev1 n (fun i => c * p i) x = c * ev1 n p x := by
  simp only [ev1, mul_sum]; exact sum_congr rfl fun i _ => by ring
theorem bern_sum (n : ℕ) (x : ℝ) : ∑ i ∈ range (n + 1), bern n i x = 1 := by
  have h := add_pow x (1 - x) n
  simp only [add_sub_cancel, one_pow] at h
  rw [h]; exact sum_congr rfl fun i _ => by unfold bern; ring
theorem ev1_const (n : ℕ) (c x : ℝ) : ev1 n (fun _ => c) x = c := by
  simp only [ev1, ← sum_mul, bern_sum, one_mul]

/-- de Casteljau recurrence -/
theorem ev1_rec (n : ℕ) (p : ℕ → ℝ) (x : ℝ) :
    ev1 (n + 1) p x = (1 - x) * ev1 n p x + x * ev1 n (fun i => p (i + 1)) x := by
  have hA : ∀ i ∈ range (n + 1), bern (n + 1) (i + 1) x = x * bern n i x + (1 - x) * bern n (i + 1) x := by
    intro i hi
    have hi : i ≤ n := by simpa [Nat.lt_succ_iff] using hi
    unfold bern
    rcases Nat.lt_or_ge i n with h | h
    · obtain ⟨k, rfl⟩ : ∃ k, n = i + 1 + k := ⟨n - (i + 1), by omega⟩
      rw [Nat.choose_succ_succ]
      rw [show i + 1 + k + 1 - (i + 1) = k + 1 by omega, show i + 1 + k - i = k + 1 by omega, show i + 1 + k - (i + 1) = k by omega]
      push_cast; ring
    · obtain rfl : i = n := by omega
      simp; ring
  unfold ev1
  rw [sum_range_succ', sum_congr rfl fun i hi => by rw [hA i hi]]
  have e1 : ∑ i ∈ range (n + 1), (x * bern n i x + (1 - x) * bern n (i + 1) x) * p (i + 1)
      = x * ∑ i ∈ range (n + 1), bern n i x * p (i + 1) + (1 - x) * ∑ i ∈ range (n + 1), bern n (i + 1) x * p (i + 1) := by
    rw [mul_sum, mul_sum, ← sum_add_distrib]; exact sum_congr rfl fun i _ => by ring
  have e2 : ∑ i ∈ range (n + 1), bern n (i + 1) x * p (i + 1) + bern n 0 x * p 0 = ∑ i ∈ range (n + 1), bern n i x * p i := by
    rw [← sum_range_succ' (fun i => bern n i x * p i) (n + 1), sum_range_succ]
    simp [bern]
  have e3 : bern (n + 1) 0 x = (1 - x) * bern n 0 x := by simp [bern, pow_succ]; ring
  rw [e1, e3, ← e2]; ring

/-- degree elevation -/
theorem elevate1 (n : ℕ) (p q : ℕ → ℝ) (x : ℝ)
    (h0 : q 0 = p 0) (hn : q (n + 1) = p n)
    (h : ∀ i, 0 < i → i < n + 1 → q i = p i * (1 - (i : ℝ) * (1 / ((n : ℝ) + 1))) + p (i - 1) * ((i : ℝ) * (1 / ((n : ℝ) + 1)))) :
    ev1 (n + 1) q x = ev1 n p x := by
  have hn1 : (n : ℝ) + 1 ≠ 0 := by positivity
  have H : ∀ i, i ≤ n + 1 → q i = (if i ≤ n then p i * (1 - (i : ℝ) / (n + 1)) else 0) + (if 0 < i then p (i - 1) * ((i : ℝ) / (n + 1)) else 0) := by
    intro i hi
    rcases Nat.eq_zero_or_pos i with rfl | hp
    · simp [h0]
    · rcases Nat.lt_or_ge i (n + 1) with hl | hg
      · rw [h i hp hl, if_pos (by omega), if_pos hp]; ring
      · obtain rfl : i = n + 1 := by omega
        rw [hn]; simp; field_simp
  have A : ∀ i, i ≤ n → bern (n + 1) i x * (1 - (i : ℝ) / (n + 1)) = (1 - x) * bern n i x := by
    intro i hi
    obtain ⟨k, rfl⟩ : ∃ k, n = i + k := ⟨n - i, by omega⟩
    have hc : ((i + k + 1).choose i : ℝ) * (k + 1) = (i + k + 1) * ((i + k).choose i) := by
      have := Nat.add_one_mul_choose_eq (i + k) k
      rw [show (i + k).choose k = (i + k).choose i from Nat.choose_symm_of_eq_add (by omega), show (i + k + 1).choose (k + 1) = (i + k + 1).choose i from Nat.choose_symm_of_eq_add (by omega)] at this
      have h2 : (((i + k + 1) * (i + k).choose i : ℕ) : ℝ) = (((i + k + 1).choose i * (k + 1) : ℕ) : ℝ) := by rw [this]
      push_cast at h2; linarith
    unfold bern
    rw [show i + k + 1 - i = k + 1 by omega, show i + k - i = k by omega]
    push_cast at hn1 ⊢
    rw [show (1 : ℝ) - (i : ℝ) / (i + k + 1) = (k + 1) / (i + k + 1) by field_simp; ring]
    field_simp
    rw [pow_succ]; linear_combination (x ^ i * (1 - x) ^ k * (1 - x)) * hc
  have B : ∀ i, i ≤ n → bern (n + 1) (i + 1) x * (((i + 1 : ℕ) : ℝ) / (n + 1)) = x * bern n i x := by
    intro i hi
    have hc : ((n + 1).choose (i + 1) : ℝ) * (i + 1) = (n + 1) * (n.choose i) := by
      have := Nat.add_one_mul_choose_eq n i
      have h2 : (((n + 1) * n.choose i : ℕ) : ℝ) = (((n + 1).choose (i + 1) * (i + 1) : ℕ) : ℝ) := by rw [this]
      push_cast at h2; linarith
    unfold bern
    rw [show n + 1 - (i + 1) = n - i by omega]
    push_cast
    field_simp
    rw [pow_succ]; linear_combination (x ^ i * x * (1 - x) ^ (n - i)) * hc
  rw [ev1_congr H]
  unfold ev1
  simp only [mul_add, sum_add_distrib]
  have s1 : ∑ i ∈ range (n + 1 + 1), bern (n + 1) i x * (if i ≤ n then p i * (1 - (i : ℝ) / (n + 1)) else 0) = (1 - x) * ∑ i ∈ range (n + 1), bern n i x * p i := by
    rw [sum_range_succ, mul_sum]; simp only [show ¬ (n + 1 ≤ n) by omega, if_false, mul_zero, add_zero]
    refine sum_congr rfl fun i hi => ?_
    have hi : i ≤ n := by simpa [Nat.lt_succ_iff] using hi
    rw [if_pos hi]; linear_combination p i * A i hi
  have s2 : ∑ i ∈ range (n + 1 + 1), bern (n + 1) i x * (if 0 < i then p (i - 1) * ((i : ℝ) / (n + 1)) else 0) = x * ∑ i ∈ range (n + 1), bern n i x * p i := by
    rw [sum_range_succ', mul_sum]; simp only [lt_irrefl, if_false, mul_zero, add_zero]
    refine sum_congr rfl fun i hi => ?_
    have hi : i ≤ n := by simpa [Nat.lt_succ_iff] using hi
    rw [if_pos (by omega), show i + 1 - 1 = i by omega]; linear_combination p i * B i hi
  rw [s1, s2]; ring

/-- de Casteljau triangle -/
def tri (x : ℝ) (p : ℕ → ℝ) : ℕ → ℕ → ℝ
  | 0, j => p j
  | r + 1, j => (1 - x) * tri x p r j + x * tri x p r (j + 1)
theorem tri_ev (x : ℝ) (p : ℕ → ℝ) : ∀ r j, tri x p r j = ev1 r (fun i => p (i + j)) x
  | 0, j => by simp [tri, ev1, bern]
  | r + 1, j => by
    rw [tri, tri_ev x p r j, tri_ev x p r (j + 1), ev1_rec]
    simp only [show ∀ i, i + (j + 1) = i + 1 + j from fun i => by omega]
theorem casteljau1 (n : ℕ) (p : ℕ → ℝ) (x : ℝ) : tri x p n 0 = ev1 n p x := by rw [tri_ev]; rfl

/-- subdivision: first and last points of the triangle rows -/
theorem split_left1 (n : ℕ) : ∀ (p : ℕ → ℝ) (t s : ℝ), ev1 n (fun r => tri t p r 0) s = ev1 n p (s * t) := by
  simp only [tri_ev, add_zero]
  induction n with
  | zero => intro p t s; simp [ev1, bern]
  | succ n ih =>
    intro p t s
    rw [ev1_rec n (fun r => ev1 r (fun i => p i) t)]
    simp only [ev1_rec _ (fun i => p i) t]
    rw [ev1_add, ev1_smul, ev1_smul, ih p t s, ih (fun i => p (i + 1)) t s, ev1_rec n p]; ring
theorem split_right1 (n : ℕ) : ∀ (p : ℕ → ℝ) (t s : ℝ), ev1 n (fun i => tri t p (n - i) i) s = ev1 n p (t + s * (1 - t)) := by
  simp only [tri_ev]
  induction n with
  | zero => intro p t s; simp [ev1, bern]
  | succ n ih =>
    intro p t s
    rw [ev1_rec n (fun i => ev1 (n + 1 - i) (fun k => p (k + i)) t)]
    have e1 : ev1 n (fun i => ev1 (n + 1 - i) (fun k => p (k + i)) t) s
        = ev1 n (fun i => (1 - t) * ev1 (n - i) (fun k => p (k + i)) t + t * ev1 (n - i) (fun k => p (k + i + 1)) t) s := by
      refine ev1_congr (fun i hi => ?_) s
      rw [show n + 1 - i = (n - i) + 1 by omega, ev1_rec]; simp only [add_right_comm]
    have e2 : ev1 n (fun i => ev1 (n + 1 - (i + 1)) (fun k => p (k + (i + 1))) t) s = ev1 n (fun i => ev1 (n - i) (fun k => p (k + i + 1)) t) s := by
      refine ev1_congr (fun i hi => ?_) s
      rw [show n + 1 - (i + 1) = n - i by omega]; simp only [add_assoc]
    rw [e1, e2, ev1_add, ev1_smul, ev1_smul, ih p t s]
    have := ih (fun k => p (k + 1)) t s
    rw [this, ev1_rec n p]; ring
/-- number of control points of the degrees ns (first dimension fastest) -/
def cnt (ns : List ℕ) : ℕ := (ns.map (· + 1)).prod
/-- value of the tensor-product spline with degrees ns and flat control-point vector p -/
def ev : List ℕ → (ℕ → ℝ) → List ℝ → ℝ
  | n :: ns, p, x :: xs => ev ns (fun h => ev1 n (fun i => p (i + (n + 1) * h)) x) xs
  | _, p, _ => p 0

@[simp] theorem cnt_nil : cnt [] = 1 := rfl
@[simp] theorem cnt_cons (n : ℕ) (ns : List ℕ) : cnt (n :: ns) = (n + 1) * cnt ns := by simp [cnt]
theorem cnt_append (a b : List ℕ) : cnt (a ++ b) = cnt a * cnt b := by simp [cnt]
theorem cnt_pos (ns : List ℕ) : 0 < cnt ns := by
  induction ns with
  | nil => simp
  | cons n ns ih => rw [cnt_cons]; positivity

theorem idx_lt {i n h N : ℕ} (hi : i ≤ n) (hh : h < N) : i + (n + 1) * h < (n + 1) * N := by
  have : (n + 1) * (h + 1) ≤ (n + 1) * N := Nat.mul_le_mul_left _ hh
  nlinarith
theorem ev_congr : ∀ (ns : List ℕ) {p q : ℕ → ℝ} (xs : List ℝ), (∀ k, k < cnt ns → p k = q k) → ev ns p xs = ev ns q xs
  | [], p, q, xs, h => by simpa [ev] using h 0 (by simp)
  | n :: ns, p, q, [], h => by simpa [ev] using h 0 (cnt_pos _)
  | n :: ns, p, q, x :: xs, h => by
    simp only [ev]
    refine ev_congr ns xs fun k hk => ev1_congr (fun i hi => h _ ?_) x
    rw [cnt_cons]; exact idx_lt hi hk
theorem ev_add : ∀ (ns : List ℕ) (p q : ℕ → ℝ) (xs : List ℝ), ev ns (fun k => p k + q k) xs = ev ns p xs + ev ns q xs
  | [], p, q, xs => by simp [ev]
  | n :: ns, p, q, [] => by simp [ev]
  | n :: ns, p, q, x :: xs => by simp only [ev, ev1_add]; exact ev_add ns _ _ xs
theorem ev_smul : ∀ (ns : List ℕ) (p : ℕ → ℝ) (c : ℝ) (xs : List ℝ), ev ns (fun k => c * p k) xs = c * ev ns p xs
  | [], p, c, xs => by simp [ev]
  | n :: ns, p, c, [] => by simp [ev]
  | n :: ns, p, c, x :: xs => by simp only [ev, ev1_smul]; exact ev_smul ns _ c xs
theorem ev_sum (ns : List ℕ) (s : Finset ℕ) (p : ℕ → ℕ → ℝ) (xs : List ℝ) : ev ns (fun k => ∑ j ∈ s, p j k) xs = ∑ j ∈ s, ev ns (p j) xs := by
  induction s using Finset.induction_on with
  | empty => simpa using ev_smul ns (fun _ => 0) 0 xs
  | insert a s ha ih => simp only [sum_insert ha]; rw [ev_add, ih]
/-- splitting the list of directions -/
theorem ev_append : ∀ (lo hi : List ℕ) (p : ℕ → ℝ) (xl xh : List ℝ), xl.length = lo.length →
    ev (lo ++ hi) p (xl ++ xh) = ev hi (fun h => ev lo (fun a => p (a + cnt lo * h)) xl) xh
  | [], hi, p, xl, xh, hl => by
    have : xl = [] := by simpa using hl
    subst this; simp [ev]
  | n :: lo, hi, p, [], xh, hl => by simp at hl
  | n :: lo, hi, p, x :: xl, xh, hl => by
    simp only [List.cons_append, ev]
    rw [ev_append lo hi _ xl xh (by simpa using hl)]
    simp only [cnt_cons, mul_add, add_assoc, mul_assoc]
/-- one direction singled out: lower directions lo (stride cnt lo), higher directions hi -/
theorem ev_dir (lo hi : List ℕ) (n : ℕ) (p : ℕ → ℝ) (xl xh : List ℝ) (x : ℝ) (hl : xl.length = lo.length) :
    ev (lo ++ n :: hi) p (xl ++ x :: xh)
      = ev hi (fun h => ev lo (fun a => ev1 n (fun i => p (a + cnt lo * (i + (n + 1) * h))) x) xl) xh := by
  rw [ev_append lo _ p xl _ hl]; simp only [ev, ev1]
  refine congrArg₂ _ (funext fun h => ?_) rfl
  rw [ev_sum]; refine sum_congr rfl fun i _ => ?_
  rw [ev_smul]
/-- lift of a one-dimensional linear identity to a direction of a tensor-product spline -/
theorem lift1 (lo hi : List ℕ) (n m : ℕ) (p q : ℕ → ℝ) (xl xh : List ℝ) (x y : ℝ) (hl : xl.length = lo.length)
    (H : ∀ a h, a < cnt lo → h < cnt hi →
      ev1 m (fun i => q (a + cnt lo * (i + (m + 1) * h))) y = ev1 n (fun i => p (a + cnt lo * (i + (n + 1) * h))) x) :
    ev (lo ++ m :: hi) q (xl ++ y :: xh) = ev (lo ++ n :: hi) p (xl ++ x :: xh) := by
  rw [ev_dir _ _ _ _ _ _ _ hl, ev_dir _ _ _ _ _ _ _ hl]
  exact ev_congr hi xh fun h hh => ev_congr lo xl fun a ha => H a h ha hh

/-! tensor-product statements used by the code-level contracts -/
theorem elevate (lo hi : List ℕ) (n : ℕ) (p q : ℕ → ℝ) (xl xh : List ℝ) (x : ℝ) (hl : xl.length = lo.length)
    (H : ∀ a i h, a < cnt lo → i ≤ n + 1 → h < cnt hi → q (a + cnt lo * (i + (n + 2) * h)) =
      if i = 0 then p (a + cnt lo * (i + (n + 1) * h)) else if i = n + 1 then p (a + cnt lo * (i - 1 + (n + 1) * h))
      else p (a + cnt lo * (i + (n + 1) * h)) * (1 - (i : ℝ) * (1 / ((n : ℝ) + 1))) + p (a + cnt lo * (i - 1 + (n + 1) * h)) * ((i : ℝ) * (1 / ((n : ℝ) + 1)))) :
    ev (lo ++ (n + 1) :: hi) q (xl ++ x :: xh) = ev (lo ++ n :: hi) p (xl ++ x :: xh) := by
  refine lift1 lo hi n (n + 1) p q xl xh x x hl fun a h ha hh => elevate1 n _ _ x ?_ ?_ ?_
  · have := H a 0 h ha (by omega) hh; simpa using this
  · have := H a (n + 1) h ha (by omega) hh; simpa using this
  · intro i h0 h1
    have := H a i h ha (by omega) hh
    rw [if_neg (by omega), if_neg (by omega)] at this; exact this
theorem split_left (lo hi : List ℕ) (n : ℕ) (p q : ℕ → ℝ) (xl xh : List ℝ) (t s : ℝ) (hl : xl.length = lo.length)
    (H : ∀ a i h, a < cnt lo → i ≤ n → h < cnt hi → q (a + cnt lo * (i + (n + 1) * h)) = tri t (fun j => p (a + cnt lo * (j + (n + 1) * h))) i 0) :
    ev (lo ++ n :: hi) q (xl ++ s :: xh) = ev (lo ++ n :: hi) p (xl ++ (s * t) :: xh) := by
  refine lift1 lo hi n n p q xl xh (s * t) s hl fun a h ha hh => ?_
  rw [← split_left1]; exact ev1_congr (fun i hi => H a i h ha hi hh) s
theorem split_right (lo hi : List ℕ) (n : ℕ) (p q : ℕ → ℝ) (xl xh : List ℝ) (t s : ℝ) (hl : xl.length = lo.length)
    (H : ∀ a i h, a < cnt lo → i ≤ n → h < cnt hi → q (a + cnt lo * (i + (n + 1) * h)) = tri t (fun j => p (a + cnt lo * (j + (n + 1) * h))) (n - i) i) :
    ev (lo ++ n :: hi) q (xl ++ s :: xh) = ev (lo ++ n :: hi) p (xl ++ (t + s * (1 - t)) :: xh) := by
  refine lift1 lo hi n n p q xl xh (t + s * (1 - t)) s hl fun a h ha hh => ?_
  rw [← split_right1]; exact ev1_congr (fun i hi => H a i h ha hi hh) s
/-- evaluation by successive triangles, first direction first -/
theorem casteljau (n : ℕ) (ns : List ℕ) (p v : ℕ → ℝ) (x : ℝ) (xs : List ℝ)
    (H : ∀ h, h < cnt ns → v h = tri x (fun i => p (i + (n + 1) * h)) n 0) : ev (n :: ns) p (x :: xs) = ev ns v xs := by
  simp only [ev]; exact ev_congr ns xs fun h hh => by rw [H h hh, casteljau1]
theorem ev_end (p : ℕ → ℝ) : ev [] p [] = p 0 := rfl

/-- product of the basis functions at a flat position -/
def bp : List ℕ → ℕ → List ℝ → ℝ
  | n :: ns, k, x :: xs => bern n (k % (n + 1)) x * bp ns (k / (n + 1)) xs
  | _, k, _ => if k = 0 then 1 else 0
theorem bp_at {n i : ℕ} (hi : i ≤ n) (ns : List ℕ) (h : ℕ) (x : ℝ) (xs : List ℝ) : bp (n :: ns) (i + (n + 1) * h) (x :: xs) = bern n i x * bp ns h xs := by
  have h1 : (i + (n + 1) * h) % (n + 1) = i := by rw [Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
  have h2 : (i + (n + 1) * h) / (n + 1) = h := by rw [Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
  simp only [bp, h1, h2]
theorem sum_flat (n N : ℕ) (f : ℕ → ℝ) : ∑ k ∈ range ((n + 1) * N), f k = ∑ h ∈ range N, ∑ i ∈ range (n + 1), f (i + (n + 1) * h) := by
  induction N with
  | zero => simp
  | succ N ih => rw [Nat.mul_succ, sum_range_add, ih, sum_range_succ (fun h => ∑ i ∈ range (n + 1), f (i + (n + 1) * h)) N]; exact congrArg₂ _ rfl (sum_congr rfl fun i _ => by rw [add_comm])
theorem ev_basis : ∀ (ns : List ℕ) (p : ℕ → ℝ) (xs : List ℝ), xs.length = ns.length → ∑ k ∈ range (cnt ns), bp ns k xs * p k = ev ns p xs
  | [], p, [], _ => by simp [ev, bp]
  | [], p, x :: xs, h => by simp at h
  | n :: ns, p, [], h => by simp at h
  | n :: ns, p, x :: xs, h => by
    rw [cnt_cons, sum_flat]
    simp only [ev]
    rw [← ev_basis ns _ xs (by simpa using h)]
    refine sum_congr rfl fun hh _ => ?_
    rw [ev1, mul_sum]
    refine sum_congr rfl fun i hi => ?_
    rw [bp_at (by simpa [Nat.lt_succ_iff] using hi)]; ring
theorem forward (ns : List ℕ) (p B : ℕ → ℝ) (xs : List ℝ) (h : xs.length = ns.length) (H : ∀ k, k < cnt ns → B k = bp ns k xs) :
    ∑ k ∈ range (cnt ns), B k * p k = ev ns p xs := by
  rw [← ev_basis ns p xs h]; exact sum_congr rfl fun k hk => by rw [H k (by simpa using hk)]

/-- first direction last -/
theorem ev_swap (n : ℕ) (ns : List ℕ) (p : ℕ → ℝ) (x : ℝ) (xs : List ℝ) : ev (n :: ns) p (x :: xs) = ev1 n (fun i => ev ns (fun h => p (i + (n + 1) * h)) xs) x := by
  simp only [ev, ev1]; rw [ev_sum]; exact sum_congr rfl fun i _ => by rw [ev_smul]
/-- product of two Bernstein polynomials -/
def pc (m n k i : ℕ) : ℝ := ((m.choose i : ℝ) * (n.choose (k - i) : ℝ)) / ((m + n).choose k : ℝ)
theorem mul1 (m n : ℕ) (p q : ℕ → ℝ) (x : ℝ) :
    ev1 (m + n) (fun k => ∑ i ∈ Icc (k - n) (min k m), pc m n k i * (p i * q (k - i))) x = ev1 m p x * ev1 n q x := by
  have key : ∀ k ∈ range (m + n + 1), ∀ i ∈ Icc (k - n) (min k m), bern (m + n) k x * (pc m n k i * (p i * q (k - i))) = (bern m i x * p i) * (bern n (k - i) x * q (k - i)) := by
    intro k hk i hi
    have hk : k ≤ m + n := by simpa [Nat.lt_succ_iff] using hk
    rw [mem_Icc] at hi
    obtain ⟨h1, h2⟩ := hi
    have hc : ((m + n).choose k : ℝ) ≠ 0 := by exact_mod_cast (Nat.choose_pos hk).ne'
    unfold bern pc
    have e1 : x ^ k = x ^ i * x ^ (k - i) := by rw [← pow_add]; congr 1; omega
    have e2 : (1 - x) ^ (m + n - k) = (1 - x) ^ (m - i) * (1 - x) ^ (n - (k - i)) := by rw [← pow_add]; congr 1; omega
    rw [e1, e2]; field_simp
  unfold ev1
  rw [sum_mul_sum, ← sum_product']
  simp only [mul_sum]
  rw [sum_congr rfl fun k hk => sum_congr rfl (key k hk), sum_sigma']
  refine sum_bij' (fun a _ => (a.2, a.1 - a.2)) (fun b _ => ⟨b.1 + b.2, b.1⟩) ?_ ?_ ?_ ?_ ?_
  · rintro ⟨k, i⟩ h; simp at h ⊢; omega
  · rintro ⟨i, j⟩ h; simp at h ⊢; omega
  · rintro ⟨k, i⟩ h; simp at h ⊢; omega
  · rintro ⟨_, _⟩ h; simp
  · rintro ⟨k, i⟩ h; rfl
def mulD : List ℕ → List ℕ → (ℕ → ℝ) → (ℕ → ℝ) → ℕ → ℝ
  | m :: ms, n :: ns, p, q, k => ∑ i ∈ Icc (k % (m + n + 1) - n) (min (k % (m + n + 1)) m), pc m n (k % (m + n + 1)) i *
      mulD ms ns (fun h => p (i + (m + 1) * h)) (fun h => q (k % (m + n + 1) - i + (n + 1) * h)) (k / (m + n + 1))
  | _, _, p, q, _ => p 0 * q 0
theorem mulD_at (m n i : ℕ) (ms ns : List ℕ) (p q : ℕ → ℝ) (k h : ℕ) (hk : k ≤ m + n) : mulD (m :: ms) (n :: ns) p q (k + (m + n + 1) * h) =
    ∑ i ∈ Icc (k - n) (min k m), pc m n k i * mulD ms ns (fun h => p (i + (m + 1) * h)) (fun h => q (k - i + (n + 1) * h)) h := by
  have h1 : (k + (m + n + 1) * h) % (m + n + 1) = k := by rw [Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
  have h2 : (k + (m + n + 1) * h) / (m + n + 1) = h := by rw [Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
  rw [mulD]; simp only [h1, h2]
theorem mul_ev : ∀ (ms ns : List ℕ) (p q : ℕ → ℝ) (xs : List ℝ), ms.length = ns.length → xs.length = ns.length →
    ev (List.zipWith (· + ·) ms ns) (mulD ms ns p q) xs = ev ms p xs * ev ns q xs
  | [], [], p, q, [], _, _ => by simp [ev, mulD]
  | m :: ms, n :: ns, p, q, x :: xs, h1, h2 => by
    rw [List.zipWith_cons_cons, ev_swap, ev_swap m, ev_swap n, ← mul1]
    refine ev1_congr (fun k hk => ?_) x
    rw [ev_congr _ xs (fun h _ => mulD_at m n 0 ms ns p q k h hk), ev_sum]
    refine sum_congr rfl fun i _ => ?_
    rw [ev_smul, mul_ev ms ns _ _ xs (by simpa using h1) (by simpa using h2)]

/-! derivatives -/
theorem ev1_hasDeriv : ∀ (n : ℕ) (p : ℕ → ℝ) (x : ℝ), HasDerivAt (ev1 (n + 1) p) (((n : ℝ) + 1) * ev1 n (fun i => p (i + 1) - p i) x) x
  | 0, p, x => by
    have e : ev1 1 p = fun x => (1 - x) * p 0 + x * p 1 := by funext y; simp [ev1, bern, sum_range_succ]
    rw [show (0 + 1) = 1 from rfl, e]
    have h := (((hasDerivAt_id x).const_sub 1).mul_const (p 0)).add ((hasDerivAt_id x).mul_const (p 1))
    refine h.congr_deriv ?_
    simp [ev1, bern]; ring
  | n + 1, p, x => by
    have e : ev1 (n + 1 + 1) p = fun x => (1 - x) * ev1 (n + 1) p x + x * ev1 (n + 1) (fun i => p (i + 1)) x := by funext y; exact ev1_rec _ _ _
    rw [e]
    have h := (((hasDerivAt_id x).const_sub 1).mul (ev1_hasDeriv n p x)).add ((hasDerivAt_id x).mul (ev1_hasDeriv n (fun i => p (i + 1)) x))
    refine h.congr_deriv ?_
    have hs : ∀ m, ∀ y : ℝ, ev1 m (fun i => p (i + 1) - p i) y = ev1 m (fun i => p (i + 1)) y - ev1 m p y := by
      intro m y
      have := ev1_add m (fun i => p (i + 1)) (fun i => (-1) * p i) y
      rw [ev1_smul] at this
      rw [show (fun i => p (i + 1) - p i) = fun i => p (i + 1) + (-1) * p i from funext fun i => by ring, this]; ring
    have hr := ev1_rec n (fun i => p (i + 1) - p i) x
    rw [hs (n + 1)] at hr ⊢
    push_cast
    simp only [id]
    linear_combination (-(n : ℝ) - 1) * hr

/-- scaled iterated forward difference, as the code accumulates it -/
def fd (k : ℕ) (p : ℕ → ℝ) (i : ℕ) : ℝ := ∑ j ∈ range (k + 1), (-1) ^ (k - j) * (k.choose j : ℝ) * p (i + j)
theorem fd_succ (k : ℕ) (p : ℕ → ℝ) (i : ℕ) : fd (k + 1) p i = fd k (fun i => p (i + 1) - p i) i := by
  have key : ∀ k (p : ℕ → ℝ) i, fd k p i = (fwdDiff 1)^[k] p i := by
    intro k p i
    rw [fwdDiff_iter_eq_sum_shift]; unfold fd
    refine sum_congr rfl fun j _ => ?_
    simp
  rw [key, key, Function.iterate_succ_apply]; rfl
theorem ev1_iter : ∀ (k n : ℕ) (p : ℕ → ℝ), iteratedDeriv k (ev1 (n + k) p) = ev1 n (fun i => ((n + k).descFactorial k : ℝ) * fd k p i)
  | 0, n, p => by simp [fd]
  | k + 1, n, p => by
    have hd : deriv (ev1 (n + (k + 1)) p) = ev1 (n + k) (fun i => ((n + k : ℕ) + 1 : ℝ) * (p (i + 1) - p i)) := by
      funext x; rw [ev1_smul]; exact (ev1_hasDeriv (n + k) p x).deriv
    rw [iteratedDeriv_succ', hd, ev1_iter k n]
    funext x; refine ev1_congr (fun i _ => ?_) x
    rw [fd_succ, show n + (k + 1) = (n + k) + 1 from rfl, Nat.succ_descFactorial_succ]
    have : fd k (fun i => ((n + k : ℕ) + 1 : ℝ) * (p (i + 1) - p i)) i = ((n + k : ℕ) + 1 : ℝ) * fd k (fun i => p (i + 1) - p i) i := by
      unfold fd; rw [mul_sum]; exact sum_congr rfl fun j _ => by ring
    rw [this]; push_cast; ring
theorem ev1_contDiff (n : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ⊤ (ev1 n p) := by
  unfold ev1 bern; fun_prop
theorem ev1_iter_zero (k n : ℕ) (p : ℕ → ℝ) (x : ℝ) (h : n < k) : iteratedDeriv k (ev1 n p) x = 0 := by
  obtain ⟨m, rfl⟩ : ∃ m, k = m + 1 + n := ⟨k - n - 1, by omega⟩
  have e : iteratedDeriv n (ev1 n p) = fun _ => ((n).descFactorial n : ℝ) * fd n p 0 := by
    have := ev1_iter n 0 p
    simp only [zero_add] at this
    rw [this]; funext y; simp [ev1, bern]
  have : ∀ m, iteratedDeriv (m + 1 + n) (ev1 n p) = fun _ => 0 := by
    intro m
    induction m with
    | zero => rw [zero_add, add_comm, iteratedDeriv_succ, e]; funext y; simp
    | succ m ih => rw [show m + 1 + 1 + n = (m + 1 + n) + 1 by omega, iteratedDeriv_succ, ih]; funext y; simp
  rw [this]
theorem ev_iter : ∀ (ns : List ℕ) (f : ℕ → ℝ → ℝ) (xs : List ℝ) (k : ℕ) (x : ℝ), (∀ j, ContDiff ℝ ⊤ (f j)) →
    iteratedDeriv k (fun t => ev ns (fun j => f j t) xs) x = ev ns (fun j => iteratedDeriv k (f j) x) xs
  | [], f, xs, k, x, h => by simp [ev]
  | n :: ns, f, [], k, x, h => by simp [ev]
  | n :: ns, f, y :: ys, k, x, h => by
    simp only [ev]
    rw [ev_iter ns (fun h t => ev1 n (fun i => f (i + (n + 1) * h) t) y) ys k x]
    · refine congrArg₂ _ (funext fun hh => ?_) rfl
      unfold ev1
      rw [iteratedDeriv_fun_sum (fun i _ => by have := h (i + (n + 1) * hh); exact (contDiff_const.mul (this.of_le le_top)).contDiffAt)]
      refine sum_congr rfl fun i _ => ?_
      rw [iteratedDeriv_const_mul_field]
    · intro j; unfold ev1; exact ContDiff.sum fun i _ => contDiff_const.mul (h _)
/-- k-th partial derivative along one direction -/
theorem deriv_dir (lo hi : List ℕ) (n k : ℕ) (p q : ℕ → ℝ) (xl xh : List ℝ) (x : ℝ) (hl : xl.length = lo.length)
    (H : ∀ a i h, a < cnt lo → i ≤ n → h < cnt hi → q (a + cnt lo * (i + (n + 1) * h)) =
      ((n + k).descFactorial k : ℝ) * fd k (fun j => p (a + cnt lo * (j + (n + k + 1) * h))) i) :
    ev (lo ++ n :: hi) q (xl ++ x :: xh) = iteratedDeriv k (fun t => ev (lo ++ (n + k) :: hi) p (xl ++ t :: xh)) x := by
  simp only [ev_dir lo hi _ _ xl xh _ hl]
  rw [ev_iter hi (fun h t => ev lo (fun a => ev1 (n + k) (fun i => p (a + cnt lo * (i + (n + k + 1) * h))) t) xl) xh k x]
  · refine ev_congr hi xh fun h hh => ?_
    rw [ev_iter lo (fun a t => ev1 (n + k) (fun i => p (a + cnt lo * (i + (n + k + 1) * h))) t) xl k x (fun j => ev1_contDiff _ _)]
    refine ev_congr lo xl fun a ha => ?_
    rw [ev1_iter]; exact ev1_congr (fun i hi => H a i h ha hi hh) x
  · intro h; clear H
    have : ∀ (ns : List ℕ) (f : ℕ → ℝ → ℝ) (ys : List ℝ), (∀ j, ContDiff ℝ ⊤ (f j)) → ContDiff ℝ ⊤ (fun t => ev ns (fun j => f j t) ys) := by
      intro ns
      induction ns with
      | nil => intro f ys hf; simpa [ev] using hf 0
      | cons n ns ih =>
        intro f ys hf
        cases ys with
        | nil => simpa [ev] using hf 0
        | cons y ys => simp only [ev]; exact ih _ ys fun j => by unfold ev1; exact ContDiff.sum fun i _ => contDiff_const.mul (hf _)
    exact this lo _ xl fun j => ev1_contDiff _ _

/-! statements in the form of the code-level obligations: T k r is the value at flat position k after r rows -/
theorem rows_tri (S n : ℕ) (a h : ℕ) (t : ℝ) (p : ℕ → ℝ) (T : ℕ → ℕ → ℝ)
    (H0 : ∀ k, T k 0 = p k)
    (H1 : ∀ i r, i + 1 ≤ n → T (a + S * (i + 1 + (n + 1) * h)) (r + 1) = (1 - t) * T (a + S * (i + (n + 1) * h)) r + t * T (a + S * (i + 1 + (n + 1) * h)) r) :
    ∀ r j, j + r ≤ n → T (a + S * (j + r + (n + 1) * h)) r = tri t (fun i => p (a + S * (i + (n + 1) * h))) r j
  | 0, j, _ => by rw [H0, tri]; rfl
  | r + 1, j, hj => by
    rw [← add_assoc, H1 (j + r) r (by omega), rows_tri S n a h t p T H0 H1 r j (by omega), tri]
    have := rows_tri S n a h t p T H0 H1 r (j + 1) (by omega)
    rw [show j + 1 + r = j + r + 1 by omega] at this; rw [this]
theorem split_left_rows (lo hi : List ℕ) (n : ℕ) (p q : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (xl xh : List ℝ) (t s : ℝ) (hl : xl.length = lo.length)
    (H0 : ∀ k, T k 0 = p k)
    (H1 : ∀ a i h r, i + 1 ≤ n → T (a + cnt lo * (i + 1 + (n + 1) * h)) (r + 1) = (1 - t) * T (a + cnt lo * (i + (n + 1) * h)) r + t * T (a + cnt lo * (i + 1 + (n + 1) * h)) r)
    (H : ∀ a i h, a < cnt lo → i ≤ n → h < cnt hi → q (a + cnt lo * (i + (n + 1) * h)) = T (a + cnt lo * (i + (n + 1) * h)) i) :
    ev (lo ++ n :: hi) q (xl ++ s :: xh) = ev (lo ++ n :: hi) p (xl ++ (s * t) :: xh) :=
  split_left lo hi n p q xl xh t s hl fun a i h ha hi' hh => by
    rw [H a i h ha hi' hh]; have := rows_tri (cnt lo) n a h t p T H0 (fun i r => H1 a i h r) i 0 (by omega); rwa [zero_add] at this
theorem split_right_rows (lo hi : List ℕ) (n : ℕ) (p q : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (xl xh : List ℝ) (t s : ℝ) (hl : xl.length = lo.length)
    (H0 : ∀ k, T k 0 = p k)
    (H1 : ∀ a i h r, i + 1 ≤ n → T (a + cnt lo * (i + 1 + (n + 1) * h)) (r + 1) = (1 - t) * T (a + cnt lo * (i + (n + 1) * h)) r + t * T (a + cnt lo * (i + 1 + (n + 1) * h)) r)
    (H : ∀ a i h, a < cnt lo → i ≤ n → h < cnt hi → q (a + cnt lo * (i + (n + 1) * h)) = T (a + cnt lo * (n + (n + 1) * h)) (n - i)) :
    ev (lo ++ n :: hi) q (xl ++ s :: xh) = ev (lo ++ n :: hi) p (xl ++ (t + s * (1 - t)) :: xh) :=
  split_right lo hi n p q xl xh t s hl fun a i h ha hi' hh => by
    rw [H a i h ha hi' hh]; have := rows_tri (cnt lo) n a h t p T H0 (fun i r => H1 a i h r) (n - i) i (by omega); rwa [show i + (n - i) = n by omega] at this
/-- one direction of the evaluation: T K r is the r-th partial value at storage position K, the entries of the direction are stored at S * k -/
theorem casteljau_rows (S n : ℕ) (ns : List ℕ) (T : ℕ → ℕ → ℝ) (x : ℝ) (xs : List ℝ)
    (H : ∀ j h r, j + r + 1 ≤ n → T (S * (j + (n + 1) * h)) (r + 1) = (1 - x) * T (S * (j + (n + 1) * h)) r + x * T (S * (j + 1 + (n + 1) * h)) r) :
    ev (n :: ns) (fun k => T (S * k) 0) (x :: xs) = ev ns (fun k => T (S * (n + 1) * k) n) xs := by
  refine casteljau n ns _ _ x xs fun h _ => ?_
  have key : ∀ r j, j + r ≤ n → T (S * (j + (n + 1) * h)) r = tri x (fun i => T (S * (i + (n + 1) * h)) 0) r j := by
    intro r
    induction r with
    | zero => intro j _; rfl
    | succ r ih => intro j hj; rw [H j h r (by omega), ih j (by omega), ih (j + 1) (by omega), tri]
  have := key n 0 (by omega)
  rw [zero_add] at this; rw [← this, mul_assoc]
theorem evaluate1 (n : ℕ) (p : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (x : ℝ) (H0 : ∀ k, T k 0 = p k)
    (H : ∀ j h r, j + r + 1 ≤ n → T (1 * (j + (n + 1) * h)) (r + 1) = (1 - x) * T (1 * (j + (n + 1) * h)) r + x * T (1 * (j + 1 + (n + 1) * h)) r) :
    T 0 n = ev [n] p [x] := by
  have := casteljau_rows 1 n [] T x [] H
  simp only [H0, one_mul] at this; rw [this]; simp [ev]
theorem evaluate2 (n m : ℕ) (p : ℕ → ℝ) (T U : ℕ → ℕ → ℝ) (x y : ℝ) (H0 : ∀ k, T k 0 = p k) (H1 : ∀ k, U ((n + 1) * k) 0 = T ((n + 1) * k) n)
    (H : ∀ j h r, j + r + 1 ≤ n → T (1 * (j + (n + 1) * h)) (r + 1) = (1 - x) * T (1 * (j + (n + 1) * h)) r + x * T (1 * (j + 1 + (n + 1) * h)) r)
    (G : ∀ j h r, j + r + 1 ≤ m → U ((n + 1) * (j + (m + 1) * h)) (r + 1) = (1 - y) * U ((n + 1) * (j + (m + 1) * h)) r + y * U ((n + 1) * (j + 1 + (m + 1) * h)) r) :
    U 0 m = ev [n, m] p [x, y] := by
  have a := casteljau_rows 1 n [m] T x [y] H
  have b := casteljau_rows (n + 1) m [] U y [] G
  simp only [H0, one_mul] at a; simp only [H1] at b
  rw [a, b]; simp [ev]
theorem evaluate3 (n m l : ℕ) (p : ℕ → ℝ) (T U V : ℕ → ℕ → ℝ) (x y z : ℝ) (H0 : ∀ k, T k 0 = p k) (H1 : ∀ k, U ((n + 1) * k) 0 = T ((n + 1) * k) n)
    (H2 : ∀ k, V ((n + 1) * (m + 1) * k) 0 = U ((n + 1) * (m + 1) * k) m)
    (H : ∀ j h r, j + r + 1 ≤ n → T (1 * (j + (n + 1) * h)) (r + 1) = (1 - x) * T (1 * (j + (n + 1) * h)) r + x * T (1 * (j + 1 + (n + 1) * h)) r)
    (G : ∀ j h r, j + r + 1 ≤ m → U ((n + 1) * (j + (m + 1) * h)) (r + 1) = (1 - y) * U ((n + 1) * (j + (m + 1) * h)) r + y * U ((n + 1) * (j + 1 + (m + 1) * h)) r)
    (F : ∀ j h r, j + r + 1 ≤ l → V ((n + 1) * (m + 1) * (j + (l + 1) * h)) (r + 1) = (1 - z) * V ((n + 1) * (m + 1) * (j + (l + 1) * h)) r + z * V ((n + 1) * (m + 1) * (j + 1 + (l + 1) * h)) r) :
    V 0 l = ev [n, m, l] p [x, y, z] := by
  have a := casteljau_rows 1 n [m, l] T x [y, z] H
  have b := casteljau_rows (n + 1) m [l] U y [z] G
  have c := casteljau_rows ((n + 1) * (m + 1)) l [] V z [] F
  simp only [H0, one_mul] at a; simp only [H1] at b; simp only [H2] at c
  rw [a, b, c]; simp [ev]
theorem basis1 {n i : ℕ} (hi : i ≤ n) (x : ℝ) : bp [n] i [x] = bern n i x := by
  have := bp_at hi [] 0 x []; simp only [mul_zero, add_zero] at this; rw [this]; simp [bp]
theorem basis2 {n i m j : ℕ} (hi : i ≤ n) (hj : j ≤ m) (x y : ℝ) : bp [n, m] (i + (n + 1) * j) [x, y] = bern m j y * bern n i x := by
  rw [bp_at hi, basis1 hj]; ring
theorem basis3 {n i m j l k : ℕ} (hi : i ≤ n) (hj : j ≤ m) (hk : k ≤ l) (x y z : ℝ) :
    bp [n, m, l] (i + (n + 1) * (j + (m + 1) * k)) [x, y, z] = bern l k z * bern m j y * bern n i x := by
  rw [bp_at hi, basis2 hj hk]; ring
theorem partial_sum (P f : ℕ → ℝ) (h0 : P 0 = 0) (h : ∀ k, P (k + 1) = P k + f k) : ∀ N, P N = ∑ k ∈ range N, f k
  | 0 => by simp [h0]
  | N + 1 => by rw [h, partial_sum P f h0 h N, sum_range_succ]
theorem forward_ps (ns : List ℕ) (p B P : ℕ → ℝ) (xs : List ℝ) (h : xs.length = ns.length) (H : ∀ k, k < cnt ns → B k = bp ns k xs)
    (h0 : P 0 = 0) (hs : ∀ k, P (k + 1) = P k + B k * p k) : P (cnt ns) = ev ns p xs := by
  rw [partial_sum P _ h0 hs, forward ns p B xs h H]
theorem ev_const : ∀ (ns : List ℕ) (c : ℝ) (xs : List ℝ), xs.length = ns.length → ev ns (fun _ => c) xs = c
  | [], c, [], _ => rfl
  | [], c, x :: xs, h => by simp at h
  | n :: ns, c, [], h => by simp at h
  | n :: ns, c, x :: xs, h => by
    simp only [ev, ev1_const]; exact ev_const ns c xs (by simpa using h)
/-- an affine combination of the control points is the affine combination of the functions -/
theorem ev_linear (ns : List ℕ) (o p q : ℕ → ℝ) (c d e : ℝ) (xs : List ℝ) (h : xs.length = ns.length) (H : ∀ k, k < cnt ns → o k = c * p k + d * q k + e) :
    ev ns o xs = c * ev ns p xs + d * ev ns q xs + e := by
  rw [ev_congr ns xs H]
  have := ev_add ns (fun k => c * p k + d * q k) (fun _ => e) xs
  rw [this, ev_add ns (fun k => c * p k) (fun k => d * q k) xs, ev_smul, ev_smul, ev_const ns e xs h]
/-! products in the form of the code-level obligations: S j is the sum of the terms below j -/
theorem run (S f : ℕ → ℝ) (lo hi : ℕ) (hl : lo ≤ hi + 1) (h0 : S lo = 0) (h : ∀ j ∈ Icc lo hi, S (j + 1) = S j + f j) : S (hi + 1) = ∑ j ∈ Icc lo hi, f j := by
  have key : ∀ d, lo + d ≤ hi + 1 → S (lo + d) = ∑ j ∈ Ico lo (lo + d), f j := by
    intro d
    induction d with
    | zero => intro _; simp [h0]
    | succ d ih =>
      intro hd
      rw [← add_assoc, h (lo + d) (by rw [mem_Icc]; omega), ih (by omega), Finset.sum_Ico_succ_top (by omega)]
  have := key (hi + 1 - lo) (by omega)
  rw [show lo + (hi + 1 - lo) = hi + 1 by omega] at this
  rw [this]; refine sum_congr ?_ fun _ _ => rfl
  ext j; simp only [mem_Ico, mem_Icc]; omega
theorem mulD1 (m n k : ℕ) (hk : k ≤ m + n) (p q : ℕ → ℝ) : mulD [m] [n] p q k = ∑ j ∈ Icc (k - n) (min k m), pc m n k j * (p j * q (k - j)) := by
  have := mulD_at m n 0 [] [] p q k 0 hk
  simp only [mul_zero, add_zero, mulD] at this; exact this
theorem mulD2 (m n k m' n' k' : ℕ) (hk : k ≤ m + n) (hk' : k' ≤ m' + n') (p q : ℕ → ℝ) : mulD [m, m'] [n, n'] p q (k + (m + n + 1) * k') =
    ∑ j ∈ Icc (k - n) (min k m), ∑ j' ∈ Icc (k' - n') (min k' m'), pc m n k j * (pc m' n' k' j' * (p (j + (m + 1) * j') * q (k - j + (n + 1) * (k' - j')))) := by
  rw [mulD_at m n 0 _ _ p q k k' hk]
  refine sum_congr rfl fun j _ => ?_
  rw [mulD1 m' n' k' hk', mul_sum]
theorem mulD3 (m n k m' n' k' m'' n'' k'' : ℕ) (hk : k ≤ m + n) (hk' : k' ≤ m' + n') (hk'' : k'' ≤ m'' + n'') (p q : ℕ → ℝ) :
    mulD [m, m', m''] [n, n', n''] p q (k + (m + n + 1) * (k' + (m' + n' + 1) * k'')) =
    ∑ j ∈ Icc (k - n) (min k m), ∑ j' ∈ Icc (k' - n') (min k' m'), ∑ j'' ∈ Icc (k'' - n'') (min k'' m''), pc m n k j * (pc m' n' k' j' * (pc m'' n'' k'' j'' *
      (p (j + (m + 1) * (j' + (m' + 1) * j'')) * q (k - j + (n + 1) * (k' - j' + (n' + 1) * (k'' - j'')))))) := by
  rw [mulD_at m n 0 _ _ p q k _ hk]
  refine sum_congr rfl fun j _ => ?_
  rw [mulD2 m' n' k' m'' n'' k'' hk' hk'', mul_sum]
  refine sum_congr rfl fun j' _ => ?_
  rw [mul_sum]
theorem prod1 (s : Finset ℕ) (m n k : ℕ) (hk : k ≤ m + n) (p q : ℕ → ℕ → ℝ) (S : ℕ → ℝ) (h0 : S (k - n) = 0)
    (h : ∀ j ∈ Icc (k - n) (min k m), S (j + 1) = S j + (∑ c ∈ s, p c j * q c (k - j)) * 1 * pc m n k j) :
    S (min k m + 1) = ∑ c ∈ s, mulD [m] [n] (p c) (q c) k := by
  rw [run S _ _ _ (by omega) h0 h]
  rw [sum_congr rfl fun c _ => mulD1 m n k hk (p c) (q c), sum_comm]
  refine sum_congr rfl fun j _ => ?_
  rw [mul_one, mul_comm, mul_sum]
theorem prod2 (s : Finset ℕ) (m n k m' n' k' : ℕ) (hk : k ≤ m + n) (hk' : k' ≤ m' + n') (p q : ℕ → ℕ → ℝ) (S : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (h0 : S (k - n) = 0)
    (h : ∀ j ∈ Icc (k - n) (min k m), S (j + 1) = S j + T j (min k' m' + 1)) (g0 : ∀ j ∈ Icc (k - n) (min k m), T j (k' - n') = 0)
    (g : ∀ j ∈ Icc (k - n) (min k m), ∀ j' ∈ Icc (k' - n') (min k' m'), T j (j' + 1) = T j j' + (∑ c ∈ s, p c (j + (m + 1) * j') * q c (k - j + (n + 1) * (k' - j'))) * (1 * pc m n k j) * pc m' n' k' j') :
    S (min k m + 1) = ∑ c ∈ s, mulD [m, m'] [n, n'] (p c) (q c) (k + (m + n + 1) * k') := by
  rw [run S _ _ _ (by omega) h0 h]
  rw [sum_congr rfl fun c _ => mulD2 m n k m' n' k' hk hk' (p c) (q c), sum_comm]
  refine sum_congr rfl fun j hj => ?_
  rw [run (T j) _ _ _ (by omega) (g0 j hj) (g j hj), sum_comm]
  refine sum_congr rfl fun j' _ => ?_
  rw [sum_mul, sum_mul]; exact sum_congr rfl fun c _ => by ring
theorem prod3 (s : Finset ℕ) (m n k m' n' k' m'' n'' k'' : ℕ) (hk : k ≤ m + n) (hk' : k' ≤ m' + n') (hk'' : k'' ≤ m'' + n'') (p q : ℕ → ℕ → ℝ)
    (S : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (U : ℕ → ℕ → ℕ → ℝ) (h0 : S (k - n) = 0)
    (h : ∀ j ∈ Icc (k - n) (min k m), S (j + 1) = S j + T j (min k' m' + 1)) (g0 : ∀ j ∈ Icc (k - n) (min k m), T j (k' - n') = 0)
    (g : ∀ j ∈ Icc (k - n) (min k m), ∀ j' ∈ Icc (k' - n') (min k' m'), T j (j' + 1) = T j j' + U j j' (min k'' m'' + 1))
    (f0 : ∀ j ∈ Icc (k - n) (min k m), ∀ j' ∈ Icc (k' - n') (min k' m'), U j j' (k'' - n'') = 0)
    (f : ∀ j ∈ Icc (k - n) (min k m), ∀ j' ∈ Icc (k' - n') (min k' m'), ∀ j'' ∈ Icc (k'' - n'') (min k'' m''), U j j' (j'' + 1) = U j j' j'' +
      (∑ c ∈ s, p c (j + (m + 1) * (j' + (m' + 1) * j'')) * q c (k - j + (n + 1) * (k' - j' + (n' + 1) * (k'' - j'')))) * (1 * pc m n k j * pc m' n' k' j') * pc m'' n'' k'' j'') :
    S (min k m + 1) = ∑ c ∈ s, mulD [m, m', m''] [n, n', n''] (p c) (q c) (k + (m + n + 1) * (k' + (m' + n' + 1) * k'')) := by
  rw [run S _ _ _ (by omega) h0 h]
  rw [sum_congr rfl fun c _ => mulD3 m n k m' n' k' m'' n'' k'' hk hk' hk'' (p c) (q c), sum_comm]
  refine sum_congr rfl fun j hj => ?_
  rw [run (T j) _ _ _ (by omega) (g0 j hj) (g j hj), sum_comm]
  refine sum_congr rfl fun j' hj' => ?_
  rw [run (U j j') _ _ _ (by omega) (f0 j hj j' hj') (f j hj j' hj'), sum_comm]
  refine sum_congr rfl fun j'' _ => ?_
  rw [sum_mul, sum_mul]; exact sum_congr rfl fun c _ => by ring
theorem prod_ev (s : Finset ℕ) (ms ns : List ℕ) (o : ℕ → ℝ) (p q : ℕ → ℕ → ℝ) (xs : List ℝ) (h1 : ms.length = ns.length) (h2 : xs.length = ns.length)
    (H : ∀ i, i < cnt (List.zipWith (· + ·) ms ns) → o i = ∑ c ∈ s, mulD ms ns (p c) (q c) i) :
    ev (List.zipWith (· + ·) ms ns) o xs = ∑ c ∈ s, ev ms (p c) xs * ev ns (q c) xs := by
  rw [ev_congr _ xs H, ev_sum]
  exact sum_congr rfl fun c _ => mul_ev ms ns _ _ xs h1 h2
/-! mixed partial derivatives -/
/-- mixed partial derivative of the spline map: order o_d in direction d -/
def mp : List ℕ → List ℕ → (ℕ → ℝ) → List ℝ → ℝ
  | n :: ns, o :: os, p, x :: xs => iteratedDeriv o (fun t => mp ns os (fun h => ev1 n (fun i => p (i + (n + 1) * h)) t) xs) x
  | _, _, p, _ => p 0
/-- without differentiation it is the value -/
theorem mp_zero_orders : ∀ (ns : List ℕ) (p : ℕ → ℝ) (xs : List ℝ), xs.length = ns.length → mp ns (ns.map fun _ => 0) p xs = ev ns p xs
  | [], p, [], _ => rfl
  | n :: ns, p, x :: xs, h => by
    simp only [List.map_cons, mp, iteratedDeriv_zero]
    rw [mp_zero_orders ns _ xs (by simpa using h)]; rfl
/-- derivative basis functions -/
def bpd : List ℕ → List ℕ → ℕ → List ℝ → ℝ
  | n :: ns, o :: os, k, x :: xs => iteratedDeriv o (bern n (k % (n + 1))) x * bpd ns os (k / (n + 1)) xs
  | _, _, _, _ => 1
theorem bern_contDiff (n i : ℕ) : ContDiff ℝ ⊤ (bern n i) := by
  unfold bern; exact ((contDiff_const.mul (contDiff_id.pow _)).mul ((contDiff_const.sub contDiff_id).pow _))
theorem bpd_at {n i : ℕ} (hi : i ≤ n) (o : ℕ) (ns os : List ℕ) (h : ℕ) (x : ℝ) (xs : List ℝ) :
    bpd (n :: ns) (o :: os) (i + (n + 1) * h) (x :: xs) = iteratedDeriv o (bern n i) x * bpd ns os h xs := by
  have h1 : (i + (n + 1) * h) % (n + 1) = i := by rw [Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
  have h2 : (i + (n + 1) * h) / (n + 1) = h := by rw [Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
  rw [bpd, h1, h2]
theorem ev1_iter_basis (o n : ℕ) (p : ℕ → ℝ) (x : ℝ) : iteratedDeriv o (ev1 n p) x = ∑ i ∈ range (n + 1), iteratedDeriv o (bern n i) x * p i := by
  unfold ev1
  rw [iteratedDeriv_fun_sum (fun i _ => (((bern_contDiff n i).mul contDiff_const).of_le le_top).contDiffAt)]
  refine sum_congr rfl fun i _ => ?_
  have : (fun x => bern n i x * p i) = fun x => p i * bern n i x := by funext y; ring
  rw [this, iteratedDeriv_const_mul_field]; ring
/-- the weighted sum of the derivative basis functions is the mixed partial derivative -/
theorem mp_basis : ∀ (ns os : List ℕ) (p : ℕ → ℝ) (xs : List ℝ), os.length = ns.length → xs.length = ns.length →
    mp ns os p xs = ∑ k ∈ range (cnt ns), bpd ns os k xs * p k
  | [], [], p, [], _, _ => by simp [mp, bpd, cnt]
  | n :: ns, o :: os, p, x :: xs, h1, h2 => by
    have e : (fun t => mp ns os (fun h => ev1 n (fun i => p (i + (n + 1) * h)) t) xs) = fun t => ∑ h ∈ range (cnt ns), bpd ns os h xs * ev1 n (fun i => p (i + (n + 1) * h)) t := by
      funext t; exact mp_basis ns os _ xs (by simpa using h1) (by simpa using h2)
    rw [mp, e, iteratedDeriv_fun_sum (fun h _ => ((contDiff_const.mul (ev1_contDiff n _)).of_le le_top).contDiffAt)]
    rw [show cnt (n :: ns) = (n + 1) * cnt ns by simp [cnt], sum_flat]
    refine sum_congr rfl fun h _ => ?_
    rw [iteratedDeriv_const_mul_field, ev1_iter_basis, mul_sum]
    refine sum_congr rfl fun i hi => ?_
    rw [bpd_at (by simpa [Nat.lt_succ_iff] using hi)]; ring
theorem mp_congr (ns os : List ℕ) {p q : ℕ → ℝ} (xs : List ℝ) (h1 : os.length = ns.length) (h2 : xs.length = ns.length) (H : ∀ k, k < cnt ns → p k = q k) :
    mp ns os p xs = mp ns os q xs := by
  rw [mp_basis ns os p xs h1 h2, mp_basis ns os q xs h1 h2]
  exact sum_congr rfl fun k hk => by rw [H k (by simpa using hk)]
/-- EvaluateDerivative: partial sums over the derivative basis functions -/
theorem derivative_ps (ns os : List ℕ) (p B P : ℕ → ℝ) (xs : List ℝ) (h1 : os.length = ns.length) (h2 : xs.length = ns.length) (H : ∀ k, k < cnt ns → B k = bpd ns os k xs)
    (h0 : P 0 = 0) (hs : ∀ k, P (k + 1) = P k + B k * p k) : P (cnt ns) = mp ns os p xs := by
  rw [partial_sum P _ h0 hs, mp_basis ns os p xs h1 h2]
  exact sum_congr rfl fun k hk => by rw [H k (by simpa using hk)]
theorem basisd1 {n i : ℕ} (hi : i ≤ n) (o : ℕ) (x : ℝ) : bpd [n] [o] i [x] = iteratedDeriv o (bern n i) x := by
  have := bpd_at hi o [] [] 0 x []; simp only [mul_zero, add_zero] at this; rw [this]; simp [bpd]
theorem basisd2 {n i m j : ℕ} (hi : i ≤ n) (hj : j ≤ m) (o o' : ℕ) (x y : ℝ) :
    bpd [n, m] [o, o'] (i + (n + 1) * j) [x, y] = iteratedDeriv o' (bern m j) y * iteratedDeriv o (bern n i) x := by
  rw [bpd_at hi, basisd1 hj]; ring
theorem basisd3 {n i m j l k : ℕ} (hi : i ≤ n) (hj : j ≤ m) (hk : k ≤ l) (o o' o'' : ℕ) (x y z : ℝ) :
    bpd [n, m, l] [o, o', o''] (i + (n + 1) * (j + (m + 1) * k)) [x, y, z] = iteratedDeriv o'' (bern l k) z * iteratedDeriv o' (bern m j) y * iteratedDeriv o (bern n i) x := by
  rw [bpd_at hi, basisd2 hj hk]; ring
/-- an order above the degree in some direction: the derivative vanishes -/
theorem bpd_zero : ∀ (ns os : List ℕ) (k : ℕ) (xs : List ℝ) (d : ℕ) (n o : ℕ), os.length = ns.length → xs.length = ns.length →
    ns[d]? = some n → os[d]? = some o → n < o → bpd ns os k xs = 0
  | [], _, _, _, d, n, o, _, _, h, _, _ => by simp at h
  | m :: ns, [], _, _, d, n, o, h1, _, _, _, _ => by simp at h1
  | m :: ns, q :: os, k, [], d, n, o, _, h2, _, _, _ => by simp at h2
  | m :: ns, q :: os, k, x :: xs, 0, n, o, _, _, h, g, l => by
    simp only [List.getElem?_cons_zero, Option.some.injEq] at h g
    subst h; subst g
    have e : bern m (k % (m + 1)) = ev1 m (fun i => if i = k % (m + 1) then 1 else 0) := by
      funext y; unfold ev1; rw [sum_eq_single (k % (m + 1))]
      · simp
      · intro b _ hb; simp [hb]
      · intro hb; exact absurd (mem_range.2 (Nat.mod_lt _ (by omega))) hb
    rw [bpd, e, ev1_iter_zero _ _ _ _ l, zero_mul]
  | m :: ns, q :: os, k, x :: xs, d + 1, n, o, h1, h2, h, g, l => by
    simp only [List.getElem?_cons_succ] at h g
    rw [bpd, bpd_zero ns os _ xs d n o (by simpa using h1) (by simpa using h2) h g l, mul_zero]
theorem mp_zero (ns os : List ℕ) (p : ℕ → ℝ) (xs : List ℝ) (d n o : ℕ) (h1 : os.length = ns.length) (h2 : xs.length = ns.length)
    (h : ns[d]? = some n) (g : os[d]? = some o) (l : n < o) : mp ns os p xs = 0 := by
  rw [mp_basis ns os p xs h1 h2]
  exact sum_eq_zero fun k _ => by rw [bpd_zero ns os k xs d n o h1 h2 h g l, zero_mul]
/-- one stage of the derivative spline -/
theorem mp_step (n o : ℕ) (ns os : List ℕ) (p q : ℕ → ℝ) (x : ℝ) (xs : List ℝ) (h1 : os.length = ns.length) (h2 : xs.length = ns.length)
    (H : ∀ i h, i ≤ n → h < cnt ns → q (i + (n + o + 1) * h) = ((n + o).descFactorial o : ℝ) * fd o (fun j => p (j + (n + o + 1) * h)) i) :
    mp ((n + o) :: ns) (o :: os) p (x :: xs) = mp ns os (fun h => ev1 n (fun i => q (i + (n + o + 1) * h)) x) xs := by
  have e : (fun t => mp ns os (fun h => ev1 (n + o) (fun i => p (i + (n + o + 1) * h)) t) xs) = fun t => ∑ h ∈ range (cnt ns), bpd ns os h xs * ev1 (n + o) (fun i => p (i + (n + o + 1) * h)) t := by
    funext t; exact mp_basis ns os _ xs h1 h2
  rw [mp, e, iteratedDeriv_fun_sum (fun h _ => ((contDiff_const.mul (ev1_contDiff _ _)).of_le le_top).contDiffAt), mp_basis ns os _ xs h1 h2]
  refine sum_congr rfl fun h hh => ?_
  rw [iteratedDeriv_const_mul_field, ev1_iter]
  exact congrArg _ (ev1_congr (fun i hi => (H i h hi (by simpa using hh)).symm) x)
theorem fd_ev1 (o n : ℕ) (F : ℕ → ℕ → ℝ) (x : ℝ) (i : ℕ) : fd o (fun j => ev1 n (F j) x) i = ev1 n (fun k => fd o (fun j => F j k) i) x := by
  unfold fd ev1
  simp only [mul_sum]
  rw [sum_comm]
  refine sum_congr rfl fun k _ => sum_congr rfl fun j _ => by ring
/-- one stage in the form of the code: Q K j is the partial sum of the first j terms at storage position K -/
theorem stage_fd (o K S : ℕ) (fac : ℝ) (p : ℕ → ℝ) (P : ℕ → ℝ) (i : ℕ) (r : ℕ → ℝ) (h : ∀ j, j ≤ o → p (K + j * S) = r (i + j)) (h0 : P 0 = p K)
    (hs : ∀ j, 1 ≤ j → j ≤ o → P j = P (j - 1) + (-1) ^ j * (o.choose j : ℝ) * p (K + j * S)) :
    P o * ((-1) ^ o * fac) = fac * fd o r i := by
  have key : ∀ j, j ≤ o → P j = ∑ l ∈ range (j + 1), (-1) ^ l * (o.choose l : ℝ) * r (i + l) := by
    intro j
    induction j with
    | zero => intro _; have := h 0 (by omega); simp only [zero_mul, add_zero] at this; simp [h0, this]
    | succ j ih => intro hj; rw [hs (j + 1) (by omega) hj, show j + 1 - 1 = j by omega, ih (by omega), sum_range_succ _ (j + 1), h (j + 1) hj]
  rw [key o le_rfl]; unfold fd
  rw [sum_mul, mul_sum]
  refine sum_congr rfl fun l hl => ?_
  have hl : l ≤ o := by simpa [Nat.lt_succ_iff] using hl
  have : (-1 : ℝ) ^ o = (-1) ^ l * (-1) ^ (o - l) := by rw [← pow_add]; congr 1; omega
  have h2 : ((-1 : ℝ) ^ l) * (-1) ^ l = 1 := by rw [← mul_pow]; simp
  rw [this]; linear_combination (o.choose l : ℝ) * r (i + l) * (-1) ^ (o - l) * fac * h2
theorem falling (n : ℕ) (f : ℕ → ℝ) (h1 : f 1 = n) (hs : ∀ i, f (i + 1) = f i * ((n : ℝ) - i)) : ∀ o, 1 ≤ o → o ≤ n → f o = (n.descFactorial o : ℝ)
  | 1, _, _ => by rw [h1]; simp
  | o + 2, _, h => by
    rw [hs, falling n f h1 hs (o + 1) (by omega) (by omega), Nat.descFactorial_succ n (o + 1)]
    rw [Nat.cast_mul, Nat.cast_sub (by omega)]; ring
/-- the derivative spline, one to three directions: P0, P1, P2, P3 are the contents of the working copy after each stage -/
theorem derivative1 (n o : ℕ) (P0 P1 q : ℕ → ℝ) (x : ℝ)
    (H1 : ∀ i, i ≤ n → P1 i = ((n + o).descFactorial o : ℝ) * fd o P0 i) (H : ∀ i, i ≤ n → q i = P1 i) :
    ev [n] q [x] = mp [n + o] [o] P0 [x] := by
  rw [mp_step n o [] [] P0 P1 x [] rfl rfl]
  · simp only [mp, ev, mul_zero, add_zero]; exact ev1_congr H x
  · intro i h hi hh
    have : h = 0 := by simpa [cnt] using hh
    subst this; simpa using H1 i hi
theorem derivative2 (n m o o' : ℕ) (P0 P1 P2 q : ℕ → ℝ) (x y : ℝ)
    (H1 : ∀ i j, i ≤ n → j ≤ m + o' → P1 (i + (n + o + 1) * j) = ((n + o).descFactorial o : ℝ) * fd o (fun k => P0 (k + (n + o + 1) * j)) i)
    (H2 : ∀ i j, i ≤ n → j ≤ m → P2 (i + (n + o + 1) * j) = ((m + o').descFactorial o' : ℝ) * fd o' (fun k => P1 (i + (n + o + 1) * k)) j)
    (H : ∀ i j, i ≤ n → j ≤ m → q (i + (n + 1) * j) = P2 (i + (n + o + 1) * j)) :
    ev [n, m] q [x, y] = mp [n + o, m + o'] [o, o'] P0 [x, y] := by
  rw [mp_step n o [m + o'] [o'] P0 P1 x [y] rfl rfl]
  · rw [← derivative1 m o' _ (fun j => ev1 n (fun i => P2 (i + (n + o + 1) * j)) x) (fun j => ev1 n (fun i => q (i + (n + 1) * j)) x) y]
    · rfl
    · intro j hj
      rw [fd_ev1, ← ev1_smul]; exact ev1_congr (fun i hi => H2 i j hi hj) x
    · intro j hj; exact ev1_congr (fun i hi => H i j hi hj) x
  · intro i j hi hj; exact H1 i j hi (by simp [cnt] at hj; omega)
theorem derivative3 (n m l o o' o'' : ℕ) (P0 P1 P2 P3 q : ℕ → ℝ) (x y z : ℝ)
    (H1 : ∀ i j k, i ≤ n → j ≤ m + o' → k ≤ l + o'' → P1 (i + (n + o + 1) * (j + (m + o' + 1) * k)) = ((n + o).descFactorial o : ℝ) * fd o (fun r => P0 (r + (n + o + 1) * (j + (m + o' + 1) * k))) i)
    (H2 : ∀ i j k, i ≤ n → j ≤ m → k ≤ l + o'' → P2 (i + (n + o + 1) * (j + (m + o' + 1) * k)) = ((m + o').descFactorial o' : ℝ) * fd o' (fun r => P1 (i + (n + o + 1) * (r + (m + o' + 1) * k))) j)
    (H3 : ∀ i j k, i ≤ n → j ≤ m → k ≤ l → P3 (i + (n + o + 1) * (j + (m + o' + 1) * k)) = ((l + o'').descFactorial o'' : ℝ) * fd o'' (fun r => P2 (i + (n + o + 1) * (j + (m + o' + 1) * r))) k)
    (H : ∀ i j k, i ≤ n → j ≤ m → k ≤ l → q (i + (n + 1) * (j + (m + 1) * k)) = P3 (i + (n + o + 1) * (j + (m + o' + 1) * k))) :
    ev [n, m, l] q [x, y, z] = mp [n + o, m + o', l + o''] [o, o', o''] P0 [x, y, z] := by
  rw [mp_step n o [m + o', l + o''] [o', o''] P0 P1 x [y, z] rfl rfl]
  · rw [← derivative2 m l o' o'' _ (fun h => ev1 n (fun i => P2 (i + (n + o + 1) * h)) x) (fun h => ev1 n (fun i => P3 (i + (n + o + 1) * h)) x) (fun h => ev1 n (fun i => q (i + (n + 1) * h)) x) y z]
    · rfl
    · intro j k hj hk
      rw [fd_ev1, ← ev1_smul]; exact ev1_congr (fun i hi => H2 i j k hi hj hk) x
    · intro j k hj hk
      rw [fd_ev1, ← ev1_smul]; exact ev1_congr (fun i hi => H3 i j k hi hj hk) x
    · intro j k hj hk; exact ev1_congr (fun i hi => H i j k hi hj hk) x
  · intro i h hi hh
    have hc : h < (m + o' + 1) * (l + o'' + 1) := by simpa [cnt] using hh
    have e := Nat.mod_add_div h (m + o' + 1)
    have h1 : h % (m + o' + 1) ≤ m + o' := Nat.lt_succ_iff.1 (Nat.mod_lt _ (by omega))
    have h2 : h / (m + o' + 1) ≤ l + o'' := Nat.lt_succ_iff.1 (Nat.div_lt_of_lt_mul hc)
    have := H1 i _ _ hi h1 h2
    rw [e] at this; exact this
end
/-- composition: homogeneous Bernstein polynomial in u and w - u -/
def hbern (n i : ℕ) (u w : ℝ) : ℝ := (n.choose i : ℝ) * (u ^ i * (w - u) ^ (n - i))
theorem hbern_eq {n i : ℕ} (hi : i ≤ n) (u w : ℝ) (hw : w ≠ 0) : hbern n i u w = w ^ n * bern n i (u / w) := by
  have e : w ^ n = w ^ i * w ^ (n - i) := by rw [← pow_add, Nat.add_sub_cancel' hi]
  have e1 : w ^ i * (u / w) ^ i = u ^ i := by rw [← mul_pow, mul_div_cancel₀ _ hw]
  have e2 : w ^ (n - i) * (1 - u / w) ^ (n - i) = (w - u) ^ (n - i) := by rw [← mul_pow, mul_sub, mul_one, mul_div_cancel₀ _ hw]
  unfold hbern bern; rw [e, ← e1, ← e2]; ring
/-- basis products at the digits of k, per number of directions -/
theorem hbasis1 {n i : ℕ} (hi : i ≤ n) (u w : ℝ) (hw : w ≠ 0) : hbern n i u w = w ^ n * bp [n] i [u / w] := by rw [basis1 hi, hbern_eq hi u w hw]
theorem hbasis2 {n i m j : ℕ} (hi : i ≤ n) (hj : j ≤ m) (u v w : ℝ) (hw : w ≠ 0) :
    hbern n i u w * hbern m j v w = w ^ (n + m) * bp [n, m] (i + (n + 1) * j) [u / w, v / w] := by
  rw [basis2 hi hj, hbern_eq hi u w hw, hbern_eq hj v w hw, pow_add]; ring
theorem hbasis3 {n i m j l k : ℕ} (hi : i ≤ n) (hj : j ≤ m) (hk : k ≤ l) (u v t w : ℝ) (hw : w ≠ 0) :
    hbern n i u w * hbern m j v w * hbern l k t w = w ^ (n + m + l) * bp [n, m, l] (i + (n + 1) * (j + (m + 1) * k)) [u / w, v / w, t / w] := by
  rw [basis3 hi hj hk, hbern_eq hi u w hw, hbern_eq hj v w hw, hbern_eq hk t w hw, pow_add, pow_add]; ring
/-- the accumulated sum is w^s times the outer spline at the projected inner value (w = 1: the outer spline at the inner value) -/
theorem compose (ns : List ℕ) (s : ℕ) (p B P : ℕ → ℝ) (us : List ℝ) (w : ℝ) (h : us.length = ns.length)
    (H : ∀ k, k < cnt ns → B k = w ^ s * bp ns k (us.map (· / w))) (h0 : P 0 = 0) (hs : ∀ k, P (k + 1) = P k + B k * p k) :
    P (cnt ns) = w ^ s * ev ns p (us.map (· / w)) := by
  rw [partial_sum P _ h0 hs, ← ev_basis ns p _ (by simpa using h), mul_sum]
  exact sum_congr rfl fun k hk => by rw [H k (by simpa using hk)]; ring
theorem compose_poly (ns : List ℕ) (p B P : ℕ → ℝ) (us : List ℝ) (s : ℕ) (h : us.length = ns.length)
    (H : ∀ k, k < cnt ns → B k = 1 ^ s * bp ns k (us.map (· / 1))) (h0 : P 0 = 0) (hs : ∀ k, P (k + 1) = P k + B k * p k) : P (cnt ns) = ev ns p us := by
  rw [compose ns s p B P us 1 h H h0 hs]; simp
/-- the power of the inner weight cancels between numerator and denominator -/
theorem compose_ratio (s : ℕ) (w a b : ℝ) (hw : w ≠ 0) : (w ^ s * a) / (w ^ s * b) = a / b := mul_div_mul_left a b (pow_ne_zero s hw)
/-! rational basis functions -/
theorem rational_basis_sum (ns : List ℕ) (w R : ℕ → ℝ) (xs : List ℝ) (h : xs.length = ns.length) (hw : ev ns w xs ≠ 0)
    (H : ∀ k, k < cnt ns → R k = w k * (bp ns k xs / ev ns w xs)) : ∑ k ∈ range (cnt ns), R k = 1 := by
  rw [sum_congr rfl fun k hk => by rw [H k (by simpa using hk), show w k * (bp ns k xs / ev ns w xs) = (bp ns k xs * w k) / ev ns w xs by ring], ← sum_div, ev_basis ns w xs h, div_self hw]
theorem rational_basis_point (ns : List ℕ) (w p R q : ℕ → ℝ) (xs : List ℝ) (h : xs.length = ns.length)
    (H : ∀ k, k < cnt ns → R k = w k * (bp ns k xs / ev ns w xs)) (hw : ∀ k, k < cnt ns → w k ≠ 0) (hq : ∀ k, k < cnt ns → q k = p k / w k) :
    ∑ k ∈ range (cnt ns), R k * q k = ev ns p xs / ev ns w xs := by
  rw [← ev_basis ns p xs h, sum_div]
  refine sum_congr rfl fun k hk => ?_
  have hk' : k < cnt ns := by simpa using hk
  have := hw k hk'
  rw [H k hk', hq k hk']; field_simp
theorem rational_unweighted_point (ns : List ℕ) (w p U : ℕ → ℝ) (xs : List ℝ) (h : xs.length = ns.length)
    (H : ∀ k, k < cnt ns → U k = bp ns k xs / ev ns w xs) : ∑ k ∈ range (cnt ns), U k * p k = ev ns p xs / ev ns w xs := by
  rw [← ev_basis ns p xs h, sum_div]
  refine sum_congr rfl fun k hk => ?_
  rw [H k (by simpa using hk)]; ring
/-! ## rational derivatives -/
noncomputable section calculus
open scoped ContDiff
variable {E : Type*} [NormedAddCommGroup E] [NormedSpace ℝ E] {U : Set E}
/-- partial derivative along u -/
def pdv (u : E) (f : E → ℝ) : E → ℝ := fun x => fderiv ℝ f x u
def Sm (U : Set E) (f : E → ℝ) : Prop := ContDiffOn ℝ ∞ f U
theorem Sm.pdv (hU : IsOpen U) {f : E → ℝ} (h : Sm U f) (u : E) : Sm U (pdv u f) :=
  (h.fderiv_of_isOpen hU (m := ∞) (by simp)).clm_apply contDiffOn_const
theorem Sm.dAt (hU : IsOpen U) {f : E → ℝ} (h : Sm U f) {x : E} (hx : x ∈ U) : DifferentiableAt ℝ f x :=
  (h.contDiffAt (hU.mem_nhds hx)).differentiableAt (by simp)
theorem pdv_congr (hU : IsOpen U) {f g : E → ℝ} (h : Set.EqOn f g U) (u : E) : Set.EqOn (pdv u f) (pdv u g) U := fun x hx => by
  unfold pdv; rw [Filter.EventuallyEq.fderiv_eq (Filter.eventuallyEq_of_mem (hU.mem_nhds hx) h)]
theorem pdv_mul (hU : IsOpen U) {f g : E → ℝ} (hf : Sm U f) (hg : Sm U g) (u : E) :
    Set.EqOn (pdv u (fun x => f x * g x)) (fun x => pdv u f x * g x + f x * pdv u g x) U := fun x hx => by
  unfold pdv; rw [fderiv_fun_mul (hf.dAt hU hx) (hg.dAt hU hx)]; simp; ring
theorem pdv_sum (hU : IsOpen U) (s : Finset ℕ) {F : ℕ → E → ℝ} (h : ∀ i, Sm U (F i)) (u : E) :
    Set.EqOn (pdv u (fun x => ∑ i ∈ s, F i x)) (fun x => ∑ i ∈ s, pdv u (F i) x) U := fun x hx => by
  unfold pdv; rw [fderiv_fun_sum (fun i _ => (h i).dAt hU hx)]; simp
theorem pdv_smul (hU : IsOpen U) {f : E → ℝ} (hf : Sm U f) (c : ℝ) (u : E) :
    Set.EqOn (pdv u (fun x => c * f x)) (fun x => c * pdv u f x) U := fun x hx => by
  unfold pdv; rw [fderiv_const_mul (hf.dAt hU hx)]; simp
theorem Sm.mul {f g : E → ℝ} (hf : Sm U f) (hg : Sm U g) : Sm U (fun x => f x * g x) := ContDiffOn.mul hf hg
theorem Sm.smul {f : E → ℝ} (hf : Sm U f) (c : ℝ) : Sm U (fun x => c * f x) := ContDiffOn.mul contDiffOn_const hf
theorem Sm.sum {s : Finset ℕ} {F : ℕ → E → ℝ} (h : ∀ i, Sm U (F i)) : Sm U (fun x => ∑ i ∈ s, F i x) := ContDiffOn.sum fun i _ => h i
theorem Sm.congr {f g : E → ℝ} (hf : Sm U f) (h : Set.EqOn g f U) : Sm U g := ContDiffOn.congr hf h
/-- partial derivatives commute -/
theorem pdv_comm (hU : IsOpen U) {f : E → ℝ} (hf : Sm U f) (u v : E) : Set.EqOn (pdv u (pdv v f)) (pdv v (pdv u f)) U := fun x hx => by
  have hc : ContDiffAt ℝ ∞ f x := hf.contDiffAt (hU.mem_nhds hx)
  have hs := hc.isSymmSndFDerivAt (by simp only [minSmoothness_of_isRCLikeNormedField]; exact right_eq_inf.mp rfl)
  have hd : DifferentiableAt ℝ (fderiv ℝ f) x := (hc.fderiv_right (m := 1) (right_eq_inf.mp rfl)).differentiableAt (by simp)
  have e : ∀ w z : E, pdv w (pdv z f) x = fderiv ℝ (fderiv ℝ f) x w z := fun w z => by
    unfold pdv; rw [fderiv_clm_apply hd (differentiableAt_const z)]; simp
  rw [e, e]; exact hs u v
/-- iterated partial derivative -/
def itp (u : E) : ℕ → (E → ℝ) → E → ℝ
  | 0, f => f
  | n + 1, f => pdv u (itp u n f)
theorem Sm.itp (hU : IsOpen U) {f : E → ℝ} (hf : Sm U f) (u : E) : ∀ n, Sm U (itp u n f)
  | 0 => hf
  | n + 1 => (Sm.itp hU hf u n).pdv hU u
theorem itp_congr (hU : IsOpen U) {f g : E → ℝ} (h : Set.EqOn f g U) (u : E) : ∀ n, Set.EqOn (itp u n f) (itp u n g) U
  | 0 => h
  | n + 1 => pdv_congr hU (itp_congr hU h u n) u
theorem itp_sum (hU : IsOpen U) (s : Finset ℕ) {F : ℕ → E → ℝ} (h : ∀ i, Sm U (F i)) (u : E) : ∀ n,
    Set.EqOn (itp u n (fun x => ∑ i ∈ s, F i x)) (fun x => ∑ i ∈ s, itp u n (F i) x) U
  | 0 => fun _ _ => rfl
  | n + 1 => fun x hx => by
    have := pdv_congr hU (itp_sum hU s h u n) u hx
    rw [itp, this, pdv_sum hU _ (fun i => (h i).itp hU u n) u hx]; rfl
theorem itp_smul (hU : IsOpen U) {f : E → ℝ} (hf : Sm U f) (c : ℝ) (u : E) : ∀ n,
    Set.EqOn (itp u n (fun x => c * f x)) (fun x => c * itp u n f x) U
  | 0 => fun _ _ => rfl
  | n + 1 => fun x hx => by
    have := pdv_congr hU (itp_smul hU hf c u n) u hx
    rw [itp, this, pdv_smul hU (hf.itp hU u n) c u hx]; rfl
/-- Leibniz along one direction -/
theorem itp_mul (hU : IsOpen U) {f g : E → ℝ} (hf : Sm U f) (hg : Sm U g) (u : E) : ∀ n,
    Set.EqOn (itp u n (fun x => f x * g x)) (fun x => ∑ k ∈ range (n + 1), (n.choose k : ℝ) * (itp u k f x * itp u (n - k) g x)) U
  | 0 => fun x _ => by simp [itp]
  | n + 1 => fun x hx => by
    have hm : ∀ k, Sm U (fun x => itp u k f x * itp u (n - k) g x) := fun k => (hf.itp hU u k).mul (hg.itp hU u (n - k))
    have h1 := pdv_congr hU (itp_mul hU hf hg u n) u hx
    rw [itp, h1, pdv_sum hU _ (fun k => (hm k).smul (n.choose k : ℝ)) u hx]; beta_reduce
    have h2 : ∀ k ∈ range (n + 1), pdv u (fun x => (n.choose k : ℝ) * (itp u k f x * itp u (n - k) g x)) x =
        (n.choose k : ℝ) * (itp u (k + 1) f x * itp u (n - k) g x) + (n.choose k : ℝ) * (itp u k f x * itp u (n + 1 - k) g x) := by
      intro k hk
      have hk : k ≤ n := by simpa [Nat.lt_succ_iff] using hk
      rw [pdv_smul hU (hm k) _ u hx]; beta_reduce; rw [pdv_mul hU (hf.itp hU u k) (hg.itp hU u (n - k)) u hx, show n + 1 - k = (n - k) + 1 by omega]
      simp only [itp]; ring
    rw [sum_congr rfl h2, sum_add_distrib]
    have h3 : ∑ k ∈ range (n + 1), (n.choose k : ℝ) * (itp u k f x * itp u (n + 1 - k) g x) = ∑ k ∈ range (n + 2), (n.choose k : ℝ) * (itp u k f x * itp u (n + 1 - k) g x) := by
      rw [sum_range_succ _ (n + 1)]; simp
    rw [h3, sum_range_succ' _ (n + 1), sum_range_succ' _ (n + 1), ← add_assoc, ← sum_add_distrib]
    congr 1
    · refine sum_congr rfl fun k _ => ?_
      rw [Nat.choose_succ_succ, show n + 1 - (k + 1) = n - k by omega]; push_cast; ring
    · simp

/-! mixed derivatives numbered in the mixed base (orders+1), first direction fastest -/
/-- the mixed partial derivative with the digits of i as orders, directions v d, v (d+1), ... -/
def mix (v : ℕ → E) : ℕ → List ℕ → ℕ → (E → ℝ) → E → ℝ
  | _, [], _, g => g
  | d, n :: ns, i, g => itp (v d) (i % (n + 1)) (mix v (d + 1) ns (i / (n + 1)) g)
/-- product of the binomial coefficients of the digits -/
def bin : List ℕ → ℕ → ℕ → ℕ
  | [], _, _ => 1
  | n :: ns, i, j => (i % (n + 1)).choose (j % (n + 1)) * bin ns (i / (n + 1)) (j / (n + 1))
/-- digit-wise at most -/
def sub : List ℕ → ℕ → ℕ → Prop
  | [], _, _ => True
  | n :: ns, i, j => j % (n + 1) ≤ i % (n + 1) ∧ sub ns (i / (n + 1)) (j / (n + 1))
theorem bin_sub : ∀ (ns : List ℕ) (i j : ℕ), ¬ sub ns i j → bin ns i j = 0
  | [], _, _, h => absurd trivial h
  | n :: ns, i, j, h => by
    simp only [sub, not_and_or] at h
    rw [bin]
    rcases h with h | h
    · rw [Nat.choose_eq_zero_of_lt (by omega), zero_mul]
    · rw [bin_sub ns _ _ h, mul_zero]
theorem sub_le : ∀ (ns : List ℕ) (i j : ℕ), j < cnt ns → sub ns i j → j ≤ i
  | [], i, j, hj, _ => by simp [cnt] at hj; omega
  | n :: ns, i, j, hj, h => by
    have hl : j / (n + 1) < cnt ns := Nat.div_lt_of_lt_mul (by rwa [cnt_cons] at hj)
    have := sub_le ns _ _ hl h.2
    have e1 := Nat.div_add_mod i (n + 1); have e2 := Nat.div_add_mod j (n + 1)
    have := Nat.mul_le_mul_left (n + 1) this
    have := h.1
    omega
theorem Sm.mix (hU : IsOpen U) (v : ℕ → E) {f : E → ℝ} (hf : Sm U f) : ∀ (d : ℕ) (ns : List ℕ) (i : ℕ), Sm U (mix v d ns i f)
  | _, [], _ => hf
  | d, n :: ns, i => (Sm.mix hU v hf (d + 1) ns _).itp hU _ _
theorem mix_congr (hU : IsOpen U) (v : ℕ → E) {f g : E → ℝ} (h : Set.EqOn f g U) : ∀ (d : ℕ) (ns : List ℕ) (i : ℕ), Set.EqOn (mix v d ns i f) (mix v d ns i g) U
  | _, [], _ => h
  | d, n :: ns, i => itp_congr hU (mix_congr hU v h (d + 1) ns _) _ _
theorem mix_zero (v : ℕ → E) (f : E → ℝ) : ∀ (d : ℕ) (ns : List ℕ), mix v d ns 0 f = f
  | _, [] => rfl
  | d, n :: ns => by simp [mix, itp, mix_zero v f (d + 1) ns]
/-- generalised Leibniz rule -/
theorem mix_mul (hU : IsOpen U) (v : ℕ → E) {f g : E → ℝ} (hf : Sm U f) (hg : Sm U g) : ∀ (ns : List ℕ) (d i : ℕ), i < cnt ns →
    Set.EqOn (mix v d ns i (fun x => f x * g x)) (fun x => ∑ j ∈ range (cnt ns), (bin ns i j : ℝ) * (mix v d ns j f x * mix v d ns (i - j) g x)) U
  | [], d, i, _ => fun x _ => by simp [mix, bin, cnt]
  | n :: ns, d, i, hi => fun x hx => by
    have hi' : i / (n + 1) < cnt ns := Nat.div_lt_of_lt_mul (by rwa [cnt_cons] at hi)
    have ih := mix_mul hU v hf hg ns (d + 1) (i / (n + 1)) hi'
    set a := i % (n + 1) with ha
    set b := i / (n + 1) with hb
    have hm : ∀ h, Sm U (fun x => mix v (d + 1) ns h f x * mix v (d + 1) ns (b - h) g x) := fun h => (hf.mix hU v _ _ _).mul (hg.mix hU v _ _ _)
    rw [mix, itp_congr hU ih (v d) _ hx, itp_sum hU _ (fun h => (hm h).smul (bin ns b h : ℝ)) (v d) _ hx]
    beta_reduce
    rw [cnt_cons, sum_flat]
    refine sum_congr rfl fun h hh => ?_
    have hh : h < cnt ns := by simpa using hh
    rw [itp_smul hU (hm h) _ _ _ hx]; beta_reduce; rw [itp_mul hU (hf.mix hU v _ _ _) (hg.mix hU v _ _ _) (v d) _ hx]; beta_reduce; rw [mul_sum]
    have han : a ≤ n := by have := Nat.mod_lt i (show 0 < n + 1 by omega); omega
    rw [show ∑ k ∈ range (n + 1), ((bin (n :: ns) i (k + (n + 1) * h) : ℕ) : ℝ) * (mix v d (n :: ns) (k + (n + 1) * h) f x * mix v d (n :: ns) (i - (k + (n + 1) * h)) g x)
        = ∑ k ∈ range (a + 1), ((bin (n :: ns) i (k + (n + 1) * h) : ℕ) : ℝ) * (mix v d (n :: ns) (k + (n + 1) * h) f x * mix v d (n :: ns) (i - (k + (n + 1) * h)) g x) from ?_]
    · refine sum_congr rfl fun k hk => ?_
      have hk : k ≤ a := by simpa [Nat.lt_succ_iff] using hk
      have h1 : (k + (n + 1) * h) % (n + 1) = k := by rw [Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
      have h2 : (k + (n + 1) * h) / (n + 1) = h := by rw [Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
      simp only [bin, mix, h1, h2, ← ha, ← hb]
      by_cases hs : sub ns b h
      · have hle := sub_le ns b h hh hs
        have e : i - (k + (n + 1) * h) = (a - k) + (n + 1) * (b - h) := by
          have e1 := Nat.div_add_mod i (n + 1); rw [← ha, ← hb] at e1
          have := Nat.mul_le_mul_left (n + 1) hle
          rw [Nat.mul_sub]; omega
        have h3 : (i - (k + (n + 1) * h)) % (n + 1) = a - k := by rw [e, Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
        have h4 : (i - (k + (n + 1) * h)) / (n + 1) = b - h := by rw [e, Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
        rw [h3, h4]; push_cast; ring
      · rw [bin_sub ns b h hs]; simp
    · symm; refine sum_subset (by intro k; simp; omega) fun k hk hk' => ?_
      have hk : k ≤ n := by simpa [Nat.lt_succ_iff] using hk
      have hk' : a < k := by simp at hk'; omega
      have h1 : (k + (n + 1) * h) % (n + 1) = k := by rw [Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
      simp only [bin, h1, ← ha, Nat.choose_eq_zero_of_lt hk']; simp
/-- the recursion of EvaluateDerivative: any Q that satisfies it is the family of mixed partial derivatives of f/w -/
theorem rational_derivative (hU : IsOpen U) (v : ℕ → E) {f w : E → ℝ} (hf : Sm U f) (hw : Sm U w) (h0 : ∀ x ∈ U, w x ≠ 0) (ns : List ℕ) {x : E} (hx : x ∈ U)
    (A W Q : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (hA : ∀ i, i < cnt ns → A i = mix v 0 ns i f x) (hW : ∀ i, i < cnt ns → W i = mix v 0 ns i w x)
    (h1 : ∀ i, i < cnt ns → T i 1 = A i)
    (hs : ∀ i j, i < cnt ns → 1 ≤ j → j ≤ i → sub ns i j → T i (j + 1) = T i j - bin ns i j * W j * Q (i - j))
    (hn : ∀ i j, i < cnt ns → 1 ≤ j → j ≤ i → ¬ sub ns i j → T i (j + 1) = T i j)
    (hQ : ∀ i, i < cnt ns → Q i = T i (i + 1) * (1 / W 0)) :
    ∀ i, i < cnt ns → Q i = mix v 0 ns i (fun y => f y / w y) x := by
  have hr : Sm U (fun y => f y / w y) := ContDiffOn.div hf hw h0
  intro i
  induction i using Nat.strong_induction_on with
  | _ i ih =>
  intro hi
  have h := mix_mul hU v hw hr ns 0 i hi hx
  have e : Set.EqOn (fun y => w y * (f y / w y)) f U := fun y hy => by have := h0 y hy; field_simp
  rw [mix_congr hU v e 0 ns i hx] at h
  have ht : ∀ j, 1 ≤ j → j ≤ i + 1 → T i j = A i - ∑ k ∈ range (j - 1), (bin ns i (k + 1) : ℝ) * (W (k + 1) * mix v 0 ns (i - (k + 1)) (fun y => f y / w y) x) := by
    intro j hj
    induction j, hj using Nat.le_induction with
    | base => intro _; simp [h1 i hi]
    | succ j hj ihj =>
      intro hle
      obtain ⟨j', rfl⟩ : ∃ j', j = j' + 1 := ⟨j - 1, by omega⟩
      have := ihj (by omega)
      simp only [Nat.add_sub_cancel] at this ⊢
      rw [sum_range_succ]
      by_cases hsub : sub ns i (j' + 1)
      · rw [hs i (j' + 1) hi (by omega) (by omega) hsub, this, ih (i - (j' + 1)) (by omega) (by omega)]; ring
      · rw [hn i (j' + 1) hi (by omega) (by omega) hsub, this, bin_sub ns i _ hsub]; simp
  have hw0 : W 0 = w x := by
    have hc : 0 < cnt ns := by omega
    rw [hW 0 hc, mix_zero]
  have key : ∑ j ∈ range (cnt ns), (bin ns i j : ℝ) * (mix v 0 ns j w x * mix v 0 ns (i - j) (fun y => f y / w y) x)
      = ∑ j ∈ range (i + 1), (bin ns i j : ℝ) * (mix v 0 ns j w x * mix v 0 ns (i - j) (fun y => f y / w y) x) := by
    symm; refine sum_subset (by intro k; simp; omega) fun j hj hj' => ?_
    have hj : j < cnt ns := by simpa using hj
    have hj' : i < j := by simp at hj'; omega
    rw [bin_sub ns i j (fun hh => by have := sub_le ns i j hj hh; omega)]; simp
  have b0 : bin ns i 0 = 1 := by
    clear * -
    induction ns generalizing i with
    | nil => rfl
    | cons n ns ih => simp [bin, ih]
  simp only at h
  rw [key, sum_range_succ', b0, mix_zero, ← hA i hi] at h
  have := ht (i + 1) (by omega) (by omega)
  rw [hQ i hi, this, hw0, h, Nat.add_sub_cancel]
  have hwx := h0 x hx
  have es : ∑ k ∈ range i, (bin ns i (k + 1) : ℝ) * (W (k + 1) * mix v 0 ns (i - (k + 1)) (fun y => f y / w y) x) = ∑ k ∈ range i, (bin ns i (k + 1) : ℝ) * (mix v 0 ns (k + 1) w x * mix v 0 ns (i - (k + 1)) (fun y => f y / w y) x) :=
    sum_congr rfl fun k hk => by rw [hW (k + 1) (by simp at hk; omega)]
  rw [es]; simp only [Nat.cast_one, one_mul, Nat.sub_zero]; field_simp; ring

/-! the derivative spline: repeated quotient rule -/
theorem quotient_step (hU : IsOpen U) {f w : E → ℝ} (hf : Sm U f) (hw : Sm U w) (h0 : ∀ x ∈ U, w x ≠ 0) (u : E) :
    Set.EqOn (pdv u (fun x => f x / w x)) (fun x => (pdv u f x * w x - pdv u w x * f x) / (w x * w x)) U := fun x hx => by
  have hr : Sm U (fun y => f y / w y) := ContDiffOn.div hf hw h0
  have e : Set.EqOn (fun y => w y * (f y / w y)) f U := fun y hy => by have := h0 y hy; field_simp
  have h := pdv_congr hU e u hx
  rw [pdv_mul hU hw hr u hx] at h
  have := h0 x hx
  beta_reduce at h ⊢
  rw [← h]; field_simp; ring
/-- numerator and weight function after each step: f (k+1) = f_k' w_k - w_k' f_k, w (k+1) = w_k^2 -/
theorem quotient_iter (hU : IsOpen U) (u : E) (f w : ℕ → E → ℝ) (N : ℕ) (hf : ∀ k, k ≤ N → Sm U (f k)) (hw : ∀ k, k ≤ N → Sm U (w k)) (h0 : ∀ x ∈ U, w 0 x ≠ 0)
    (hs : ∀ k, k < N → ∀ x ∈ U, f (k + 1) x = pdv u (f k) x * w k x - pdv u (w k) x * f k x) (ht : ∀ k, k < N → ∀ x ∈ U, w (k + 1) x = w k x * w k x) :
    ∀ k, k ≤ N → (∀ x ∈ U, w k x ≠ 0) ∧ Set.EqOn (fun x => f k x / w k x) (itp u k (fun x => f 0 x / w 0 x)) U
  | 0, _ => ⟨h0, fun _ _ => rfl⟩
  | k + 1, hk => by
    obtain ⟨h1, h2⟩ := quotient_iter hU u f w N hf hw h0 hs ht k (by omega)
    refine ⟨fun x hx => by rw [ht k (by omega) x hx]; exact mul_ne_zero (h1 x hx) (h1 x hx), fun x hx => ?_⟩
    have := pdv_congr hU h2 u hx
    rw [quotient_step hU (hf k (by omega)) (hw k (by omega)) h1 u hx] at this
    simp only [itp, ← this, hs k (by omega) x hx, ht k (by omega) x hx]
theorem itp_pdv (hU : IsOpen U) {f : E → ℝ} (hf : Sm U f) (u v : E) : ∀ n, Set.EqOn (itp u n (pdv v f)) (pdv v (itp u n f)) U
  | 0 => fun _ _ => rfl
  | n + 1 => fun x hx => by
    rw [itp, pdv_congr hU (itp_pdv hU hf u v n) u hx, pdv_comm hU (hf.itp hU u n) u v hx]; rfl
theorem itp_comm (hU : IsOpen U) {f : E → ℝ} (hf : Sm U f) (u v : E) (n : ℕ) : ∀ m, Set.EqOn (itp u n (itp v m f)) (itp v m (itp u n f)) U
  | 0 => fun _ _ => rfl
  | m + 1 => fun x hx => by
    rw [itp, itp_pdv hU (hf.itp hU v m) u v n hx, pdv_congr hU (itp_comm hU hf u v n m) v hx]; rfl
/-- differentiating first direction first is the same mixed partial derivative -/
theorem mix_rev2 (hU : IsOpen U) (v : ℕ → E) {f : E → ℝ} (hf : Sm U f) (a b : ℕ) :
    Set.EqOn (itp (v 1) b (itp (v 0) a f)) (itp (v 0) a (itp (v 1) b f)) U := itp_comm hU hf _ _ _ _
theorem mix_rev3 (hU : IsOpen U) (v : ℕ → E) {f : E → ℝ} (hf : Sm U f) (a b c : ℕ) :
    Set.EqOn (itp (v 2) c (itp (v 1) b (itp (v 0) a f))) (itp (v 0) a (itp (v 1) b (itp (v 2) c f))) U := fun x hx => by
  rw [itp_comm hU (hf.itp hU (v 0) a) (v 2) (v 1) c b hx]
  rw [itp_congr hU (itp_comm hU hf (v 2) (v 0) c a) (v 1) b hx]
  rw [itp_comm hU (hf.itp hU (v 2) c) (v 1) (v 0) b a hx]
/-! the polynomial maps: mp is the mixed partial derivative in the sense of mix -/
theorem pdv_line {f : E → ℝ} {x : E} (h : DifferentiableAt ℝ f x) (u : E) : pdv u f x = deriv (fun t : ℝ => f (x + t • u)) 0 := by
  unfold pdv; rw [← h.lineDeriv_eq_fderiv]; rfl
theorem bern_it (n i o : ℕ) : ContDiff ℝ ∞ (iteratedDeriv o (bern n i)) := by
  rw [iteratedDeriv_eq_iterate]; exact ContDiff.iterate_deriv o ((bern_contDiff n i).of_le le_top)
theorem deriv_shift (f : ℝ → ℝ) (x : ℝ) : deriv (fun t : ℝ => f (x + t)) 0 = deriv f x := by
  have := deriv_comp_const_add (f := f) (a := x) (x := 0); simpa using this
theorem mp1_smooth (n o : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ∞ (fun x : ℝ => mp [n] [o] p [x]) := by
  have e : (fun x : ℝ => mp [n] [o] p [x]) = fun x => ∑ k ∈ range (cnt [n]), bpd [n] [o] k [x] * p k := by funext x; exact mp_basis _ _ _ _ rfl rfl
  rw [e]; refine ContDiff.sum fun k _ => ContDiff.mul ?_ contDiff_const
  simp only [bpd, mul_one]; exact bern_it _ _ _
theorem mp2_smooth (n m a b : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ∞ (fun x : ℝ × ℝ => mp [n, m] [a, b] p [x.1, x.2]) := by
  have e : (fun x : ℝ × ℝ => mp [n, m] [a, b] p [x.1, x.2]) = fun x => ∑ k ∈ range (cnt [n, m]), bpd [n, m] [a, b] k [x.1, x.2] * p k := by funext x; exact mp_basis _ _ _ _ rfl rfl
  rw [e]; refine ContDiff.sum fun k _ => ContDiff.mul ?_ contDiff_const
  simp only [bpd, mul_one]; exact ((bern_it _ _ _).comp contDiff_fst).mul ((bern_it _ _ _).comp contDiff_snd)
theorem mp3_smooth (n m l a b c : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ∞ (fun x : ℝ × ℝ × ℝ => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]) := by
  have e : (fun x : ℝ × ℝ × ℝ => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]) = fun x => ∑ k ∈ range (cnt [n, m, l]), bpd [n, m, l] [a, b, c] k [x.1, x.2.1, x.2.2] * p k := by funext x; exact mp_basis _ _ _ _ rfl rfl
  rw [e]; refine ContDiff.sum fun k _ => ContDiff.mul ?_ contDiff_const
  simp only [bpd, mul_one]
  exact ((bern_it _ _ _).comp contDiff_fst).mul (((bern_it _ _ _).comp (contDiff_fst.comp contDiff_snd)).mul ((bern_it _ _ _).comp (contDiff_snd.comp contDiff_snd)))
theorem deriv_it (n i o : ℕ) (x : ℝ) : deriv (fun t : ℝ => iteratedDeriv o (bern n i) (x + t)) 0 = iteratedDeriv (o + 1) (bern n i) x := by
  rw [deriv_shift (iteratedDeriv o (bern n i)) x, iteratedDeriv_succ]
theorem diff_it (n i o : ℕ) (x : ℝ) : DifferentiableAt ℝ (fun t : ℝ => iteratedDeriv o (bern n i) (x + t)) 0 :=
  (((bern_it n i o).differentiable (by simp)).differentiableAt).comp _ (by fun_prop)
/-- a sum over the basis functions, differentiated along a direction that moves one coordinate -/
theorem sum_line (c : ℕ) (B B' : ℕ → ℝ) (n o : ℕ) (i : ℕ → ℕ) (p : ℕ → ℝ) (x : ℝ) (g : ℕ → ℝ) (h : ℕ → ℝ → ℝ)
    (h1 : ∀ k t, h k t = g k * iteratedDeriv o (bern n (i k)) (x + t)) :
    deriv (fun t => ∑ k ∈ range c, h k t * p k) 0 = ∑ k ∈ range c, g k * iteratedDeriv (o + 1) (bern n (i k)) x * p k := by
  rw [deriv_fun_sum (fun k _ => by simp only [h1]; exact ((diff_it _ _ _ _).const_mul _).mul_const _)]
  refine sum_congr rfl fun k _ => ?_
  simp only [h1]
  rw [deriv_mul_const ((diff_it _ _ _ _).const_mul _), deriv_const_mul _ (diff_it _ _ _ _), deriv_it]
theorem mps1 (n o : ℕ) (p : ℕ → ℝ) (x : ℝ) : mp [n] [o] p [x] = ∑ k ∈ range (cnt [n]), bpd [n] [o] k [x] * p k := mp_basis _ _ _ _ rfl rfl
theorem mps2 (n m a b : ℕ) (p : ℕ → ℝ) (x y : ℝ) : mp [n, m] [a, b] p [x, y] = ∑ k ∈ range (cnt [n, m]), bpd [n, m] [a, b] k [x, y] * p k := mp_basis _ _ _ _ rfl rfl
theorem mps3 (n m l a b c : ℕ) (p : ℕ → ℝ) (x y z : ℝ) : mp [n, m, l] [a, b, c] p [x, y, z] = ∑ k ∈ range (cnt [n, m, l]), bpd [n, m, l] [a, b, c] k [x, y, z] * p k := mp_basis _ _ _ _ rfl rfl
theorem pdv1 (n o : ℕ) (p : ℕ → ℝ) : pdv (1 : ℝ) (fun x : ℝ => mp [n] [o] p [x]) = fun x : ℝ => mp [n] [o + 1] p [x] := by
  funext x
  rw [pdv_line (((mp1_smooth n o p).differentiable (by simp)) x)]
  simp only [mps1]
  rw [sum_line _ (fun _ => 0) (fun _ => 0) n o (fun k => k % (n + 1)) p x (fun _ => 1) _ (fun k t => by simp [bpd])]
  exact sum_congr rfl fun k _ => by simp [bpd]
theorem pdv2 (n m a b : ℕ) (p : ℕ → ℝ) :
    pdv ((1, 0) : ℝ × ℝ) (fun x => mp [n, m] [a, b] p [x.1, x.2]) = (fun x => mp [n, m] [a + 1, b] p [x.1, x.2]) ∧
    pdv ((0, 1) : ℝ × ℝ) (fun x => mp [n, m] [a, b] p [x.1, x.2]) = (fun x => mp [n, m] [a, b + 1] p [x.1, x.2]) := by
  constructor <;> funext x <;> rw [pdv_line (((mp2_smooth n m a b p).differentiable (by simp)) x)] <;> simp only [mps2]
  · rw [sum_line _ (fun _ => 0) (fun _ => 0) n a (fun k => k % (n + 1)) p x.1 (fun k => iteratedDeriv b (bern m (k / (n + 1) % (m + 1))) x.2) _ (fun k t => by simp [bpd]; ring)]
    exact sum_congr rfl fun k _ => by simp only [bpd, mul_one]; ring
  · rw [sum_line _ (fun _ => 0) (fun _ => 0) m b (fun k => k / (n + 1) % (m + 1)) p x.2 (fun k => iteratedDeriv a (bern n (k % (n + 1))) x.1) _ (fun k t => by simp [bpd])]
    exact sum_congr rfl fun k _ => by simp [bpd]
theorem pdv3 (n m l a b c : ℕ) (p : ℕ → ℝ) :
    pdv ((1, 0, 0) : ℝ × ℝ × ℝ) (fun x => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]) = (fun x => mp [n, m, l] [a + 1, b, c] p [x.1, x.2.1, x.2.2]) ∧
    pdv ((0, 1, 0) : ℝ × ℝ × ℝ) (fun x => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]) = (fun x => mp [n, m, l] [a, b + 1, c] p [x.1, x.2.1, x.2.2]) ∧
    pdv ((0, 0, 1) : ℝ × ℝ × ℝ) (fun x => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]) = (fun x => mp [n, m, l] [a, b, c + 1] p [x.1, x.2.1, x.2.2]) := by
  refine ⟨?_, ?_, ?_⟩ <;> funext x <;> rw [pdv_line (((mp3_smooth n m l a b c p).differentiable (by simp)) x)] <;> simp only [mps3]
  · rw [sum_line _ (fun _ => 0) (fun _ => 0) n a (fun k => k % (n + 1)) p x.1 (fun k => iteratedDeriv b (bern m (k / (n + 1) % (m + 1))) x.2.1 * iteratedDeriv c (bern l (k / (n + 1) / (m + 1) % (l + 1))) x.2.2) _ (fun k t => by simp [bpd]; ring)]
    exact sum_congr rfl fun k _ => by simp only [bpd, mul_one]; ring
  · rw [sum_line _ (fun _ => 0) (fun _ => 0) m b (fun k => k / (n + 1) % (m + 1)) p x.2.1 (fun k => iteratedDeriv a (bern n (k % (n + 1))) x.1 * iteratedDeriv c (bern l (k / (n + 1) / (m + 1) % (l + 1))) x.2.2) _ (fun k t => by simp [bpd]; ring)]
    exact sum_congr rfl fun k _ => by simp only [bpd, mul_one]; ring
  · rw [sum_line _ (fun _ => 0) (fun _ => 0) l c (fun k => k / (n + 1) / (m + 1) % (l + 1)) p x.2.2 (fun k => iteratedDeriv a (bern n (k % (n + 1))) x.1 * iteratedDeriv b (bern m (k / (n + 1) % (m + 1))) x.2.1) _ (fun k t => by simp [bpd]; ring)]
    exact sum_congr rfl fun k _ => by simp only [bpd, mul_one]; ring

/-- unit directions -/
def dir1 : ℕ → ℝ := fun _ => 1
def dir2 : ℕ → ℝ × ℝ := fun d => if d = 0 then (1, 0) else (0, 1)
def dir3 : ℕ → ℝ × ℝ × ℝ := fun d => if d = 0 then (1, 0, 0) else if d = 1 then (0, 1, 0) else (0, 0, 1)
theorem itp1 (n : ℕ) (p : ℕ → ℝ) : ∀ a, itp (1 : ℝ) a (fun x => mp [n] [0] p [x]) = fun x => mp [n] [a] p [x]
  | 0 => rfl
  | a + 1 => by rw [itp, itp1 n p a, pdv1]
theorem itp2a (n m b : ℕ) (p : ℕ → ℝ) : ∀ a, itp ((1, 0) : ℝ × ℝ) a (fun x => mp [n, m] [0, b] p [x.1, x.2]) = fun x => mp [n, m] [a, b] p [x.1, x.2]
  | 0 => rfl
  | a + 1 => by rw [itp, itp2a n m b p a, (pdv2 n m a b p).1]
theorem itp2b (n m a : ℕ) (p : ℕ → ℝ) : ∀ b, itp ((0, 1) : ℝ × ℝ) b (fun x => mp [n, m] [a, 0] p [x.1, x.2]) = fun x => mp [n, m] [a, b] p [x.1, x.2]
  | 0 => rfl
  | b + 1 => by rw [itp, itp2b n m a p b, (pdv2 n m a b p).2]
theorem itp3a (n m l b c : ℕ) (p : ℕ → ℝ) : ∀ a, itp ((1, 0, 0) : ℝ × ℝ × ℝ) a (fun x => mp [n, m, l] [0, b, c] p [x.1, x.2.1, x.2.2]) = fun x => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]
  | 0 => rfl
  | a + 1 => by rw [itp, itp3a n m l b c p a, (pdv3 n m l a b c p).1]
theorem itp3b (n m l a c : ℕ) (p : ℕ → ℝ) : ∀ b, itp ((0, 1, 0) : ℝ × ℝ × ℝ) b (fun x => mp [n, m, l] [a, 0, c] p [x.1, x.2.1, x.2.2]) = fun x => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]
  | 0 => rfl
  | b + 1 => by rw [itp, itp3b n m l a c p b, (pdv3 n m l a b c p).2.1]
theorem itp3c (n m l a b : ℕ) (p : ℕ → ℝ) : ∀ c, itp ((0, 0, 1) : ℝ × ℝ × ℝ) c (fun x => mp [n, m, l] [a, b, 0] p [x.1, x.2.1, x.2.2]) = fun x => mp [n, m, l] [a, b, c] p [x.1, x.2.1, x.2.2]
  | 0 => rfl
  | c + 1 => by rw [itp, itp3c n m l a b p c, (pdv3 n m l a b c p).2.2]
/-- the spline maps as functions on R, R^2, R^3 -/
def sp1 (n : ℕ) (p : ℕ → ℝ) : ℝ → ℝ := fun x => ev [n] p [x]
def sp2 (n m : ℕ) (p : ℕ → ℝ) : ℝ × ℝ → ℝ := fun x => ev [n, m] p [x.1, x.2]
def sp3 (n m l : ℕ) (p : ℕ → ℝ) : ℝ × ℝ × ℝ → ℝ := fun x => ev [n, m, l] p [x.1, x.2.1, x.2.2]
theorem sp1_mp (n : ℕ) (p : ℕ → ℝ) : sp1 n p = fun x => mp [n] [0] p [x] := by
  funext x; exact (mp_zero_orders [n] p [x] rfl).symm
theorem sp2_mp (n m : ℕ) (p : ℕ → ℝ) : sp2 n m p = fun x => mp [n, m] [0, 0] p [x.1, x.2] := by
  funext x; exact (mp_zero_orders [n, m] p [x.1, x.2] rfl).symm
theorem sp3_mp (n m l : ℕ) (p : ℕ → ℝ) : sp3 n m l p = fun x => mp [n, m, l] [0, 0, 0] p [x.1, x.2.1, x.2.2] := by
  funext x; exact (mp_zero_orders [n, m, l] p [x.1, x.2.1, x.2.2] rfl).symm
theorem mix1 (n N i : ℕ) (p : ℕ → ℝ) (x : ℝ) : mix dir1 0 [N] i (sp1 n p) x = mp [n] [i % (N + 1)] p [x] := by
  rw [sp1_mp]; simp only [mix, dir1]; rw [itp1]
theorem mix2 (n m N M i : ℕ) (p : ℕ → ℝ) (x : ℝ × ℝ) : mix dir2 0 [N, M] i (sp2 n m p) x = mp [n, m] [i % (N + 1), i / (N + 1) % (M + 1)] p [x.1, x.2] := by
  rw [sp2_mp]; simp only [mix, dir2, if_pos, zero_add, one_ne_zero, if_false]; rw [itp2b, itp2a]
theorem mix3 (n m l N M L i : ℕ) (p : ℕ → ℝ) (x : ℝ × ℝ × ℝ) : mix dir3 0 [N, M, L] i (sp3 n m l p) x =
    mp [n, m, l] [i % (N + 1), i / (N + 1) % (M + 1), i / (N + 1) / (M + 1) % (L + 1)] p [x.1, x.2.1, x.2.2] := by
  rw [sp3_mp]; simp only [mix, dir3, if_pos, zero_add, one_ne_zero, if_false, Nat.reduceAdd, Nat.reduceEqDiff]; rw [itp3c, itp3b, itp3a]
theorem sp1_smooth (n : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ∞ (sp1 n p) := by rw [sp1_mp]; exact mp1_smooth _ _ _
theorem sp2_smooth (n m : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ∞ (sp2 n m p) := by rw [sp2_mp]; exact mp2_smooth _ _ _ _ _
theorem sp3_smooth (n m l : ℕ) (p : ℕ → ℝ) : ContDiff ℝ ∞ (sp3 n m l p) := by rw [sp3_mp]; exact mp3_smooth _ _ _ _ _ _ _
/-- the recursion of EvaluateDerivative over ids below cnt ns -/
structure Rec (ns : List ℕ) (A W Q : ℕ → ℝ) (T : ℕ → ℕ → ℝ) : Prop where
  first : ∀ i, i < cnt ns → T i 1 = A i
  step : ∀ i j, i < cnt ns → 1 ≤ j → j ≤ i → sub ns i j → T i (j + 1) = T i j - bin ns i j * W j * Q (i - j)
  skip : ∀ i j, i < cnt ns → 1 ≤ j → j ≤ i → ¬ sub ns i j → T i (j + 1) = T i j
  last : ∀ i, i < cnt ns → Q i = T i (i + 1) * (1 / W 0)
theorem rational_derivative' {f w : E → ℝ} (hf : ContDiff ℝ ∞ f) (hw : ContDiff ℝ ∞ w) (v : ℕ → E) (ns : List ℕ) {x : E} (h0 : w x ≠ 0)
    (A W Q : ℕ → ℝ) (T : ℕ → ℕ → ℝ) (hA : ∀ i, i < cnt ns → A i = mix v 0 ns i f x) (hW : ∀ i, i < cnt ns → W i = mix v 0 ns i w x) (h : Rec ns A W Q T) :
    ∀ i, i < cnt ns → Q i = mix v 0 ns i (fun y => f y / w y) x :=
  rational_derivative (U := {y | w y ≠ 0}) (isOpen_ne_fun hw.continuous continuous_const) v hf.contDiffOn hw.contDiffOn (fun _ h => h) ns h0 A W Q T hA hW h.first h.step h.skip h.last
/-- EvaluateDerivative -/
theorem rational_derivative1 (n N : ℕ) (p q : ℕ → ℝ) (x : ℝ) (h0 : sp1 n q x ≠ 0) (A W Q : ℕ → ℝ) (T : ℕ → ℕ → ℝ)
    (hA : ∀ i, i < cnt [N] → A i = mp [n] [i % (N + 1)] p [x]) (hW : ∀ i, i < cnt [N] → W i = mp [n] [i % (N + 1)] q [x]) (h : Rec [N] A W Q T) :
    Q (cnt [N] - 1) = mix dir1 0 [N] (cnt [N] - 1) (fun y => sp1 n p y / sp1 n q y) x :=
  rational_derivative' (sp1_smooth n p) (sp1_smooth n q) dir1 [N] h0 A W Q T (fun i hi => by rw [mix1, hA i hi]) (fun i hi => by rw [mix1, hW i hi]) h _ (by simp [cnt])
theorem rational_derivative2 (n m N M : ℕ) (p q : ℕ → ℝ) (x : ℝ × ℝ) (h0 : sp2 n m q x ≠ 0) (A W Q : ℕ → ℝ) (T : ℕ → ℕ → ℝ)
    (hA : ∀ i, i < cnt [N, M] → A i = mp [n, m] [i % (N + 1), i / (N + 1) % (M + 1)] p [x.1, x.2])
    (hW : ∀ i, i < cnt [N, M] → W i = mp [n, m] [i % (N + 1), i / (N + 1) % (M + 1)] q [x.1, x.2]) (h : Rec [N, M] A W Q T) :
    Q (cnt [N, M] - 1) = mix dir2 0 [N, M] (cnt [N, M] - 1) (fun y => sp2 n m p y / sp2 n m q y) x :=
  rational_derivative' (sp2_smooth n m p) (sp2_smooth n m q) dir2 [N, M] h0 A W Q T (fun i hi => by rw [mix2, hA i hi]) (fun i hi => by rw [mix2, hW i hi]) h _ (by simp [cnt])
theorem rational_derivative3 (n m l N M L : ℕ) (p q : ℕ → ℝ) (x : ℝ × ℝ × ℝ) (h0 : sp3 n m l q x ≠ 0) (A W Q : ℕ → ℝ) (T : ℕ → ℕ → ℝ)
    (hA : ∀ i, i < cnt [N, M, L] → A i = mp [n, m, l] [i % (N + 1), i / (N + 1) % (M + 1), i / (N + 1) / (M + 1) % (L + 1)] p [x.1, x.2.1, x.2.2])
    (hW : ∀ i, i < cnt [N, M, L] → W i = mp [n, m, l] [i % (N + 1), i / (N + 1) % (M + 1), i / (N + 1) / (M + 1) % (L + 1)] q [x.1, x.2.1, x.2.2]) (h : Rec [N, M, L] A W Q T) :
    Q (cnt [N, M, L] - 1) = mix dir3 0 [N, M, L] (cnt [N, M, L] - 1) (fun y => sp3 n m l p y / sp3 n m l q y) x :=
  rational_derivative' (sp3_smooth n m l p) (sp3_smooth n m l q) dir3 [N, M, L] h0 A W Q T (fun i hi => by rw [mix3, hA i hi]) (fun i hi => by rw [mix3, hW i hi]) h _ (by simp [cnt])
/-- the last id: the requested orders -/
theorem last1 (N : ℕ) (g : ℝ → ℝ) : mix dir1 0 [N] (cnt [N] - 1) g = itp 1 N g := by simp [mix, dir1, cnt]
theorem last_digits (N M : ℕ) : ((N + 1) * (M + 1) - 1) % (N + 1) = N ∧ ((N + 1) * (M + 1) - 1) / (N + 1) = M := by
  have e : (N + 1) * (M + 1) - 1 = N + (N + 1) * M := by rw [Nat.mul_succ]; omega
  rw [e]; constructor
  · rw [Nat.add_mul_mod_self_left, Nat.mod_eq_of_lt (by omega)]
  · rw [Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
theorem last2 (N M : ℕ) (g : ℝ × ℝ → ℝ) : mix dir2 0 [N, M] (cnt [N, M] - 1) g = itp (1, 0) N (itp (0, 1) M g) := by
  have e : cnt [N, M] - 1 = (N + 1) * (M + 1) - 1 := by simp [cnt]
  rw [e, mix, (last_digits N M).1, (last_digits N M).2]; simp [mix, dir2]
theorem last3 (N M L : ℕ) (g : ℝ × ℝ × ℝ → ℝ) : mix dir3 0 [N, M, L] (cnt [N, M, L] - 1) g = itp (1, 0, 0) N (itp (0, 1, 0) M (itp (0, 0, 1) L g)) := by
  obtain ⟨K, hK⟩ : ∃ K, K + 1 = (M + 1) * (L + 1) := ⟨(M + 1) * (L + 1) - 1, Nat.sub_add_cancel (Nat.one_le_iff_ne_zero.mpr (by positivity))⟩
  have e : cnt [N, M, L] - 1 = (N + 1) * (K + 1) - 1 := by rw [hK]; simp [cnt]
  have e2 : K = (M + 1) * (L + 1) - 1 := by omega
  rw [e, mix, (last_digits N K).1, (last_digits N K).2, mix, e2, (last_digits M L).1, (last_digits M L).2]; simp [mix, dir3]
/-- BasisFunctionsDerivatives: the recursion for every basis function, combined with any coefficients, is the recursion of the combination -/
theorem rec_combine (ns : List ℕ) (B : Finset ℕ) (c : ℕ → ℝ) (A Q : ℕ → ℕ → ℝ) (W : ℕ → ℝ) (T : ℕ → ℕ → ℕ → ℝ) (h : ∀ b ∈ B, Rec ns (A b) W (Q b) (T b)) :
    Rec ns (fun i => ∑ b ∈ B, A b i * c b) W (fun i => ∑ b ∈ B, Q b i * c b) (fun i j => ∑ b ∈ B, T b i j * c b) where
  first i hi := sum_congr rfl fun b hb => by rw [(h b hb).first i hi]
  step i j hi h1 h2 hs := by
    rw [mul_sum, ← sum_sub_distrib]; exact sum_congr rfl fun b hb => by rw [(h b hb).step i j hi h1 h2 hs]; ring
  skip i j hi h1 h2 hs := sum_congr rfl fun b hb => by rw [(h b hb).skip i j hi h1 h2 hs]
  last i hi := by
    rw [sum_mul]; exact sum_congr rfl fun b hb => by rw [(h b hb).last i hi]; ring
/-- weights times derivative basis functions combined with projected control points: the numerator's derivative -/
theorem basis_numerator (ns os : List ℕ) (q w c : ℕ → ℝ) (xs : List ℝ) (h1 : os.length = ns.length) (h2 : xs.length = ns.length) (hq : ∀ k, k < cnt ns → q k = c k * w k) :
    ∑ b ∈ range (cnt ns), (w b * bpd ns os b xs) * c b = mp ns os q xs := by
  rw [mp_basis ns os q xs h1 h2]; exact sum_congr rfl fun k hk => by rw [hq k (by simpa using hk)]; ring
/-- one derivative basis function: the derivative of the map with a single non-zero coefficient -/
theorem basis_single (ns os : List ℕ) (w : ℝ) (b : ℕ) (xs : List ℝ) (h1 : os.length = ns.length) (h2 : xs.length = ns.length) (hb : b < cnt ns) :
    w * bpd ns os b xs = mp ns os (fun k => if k = b then w else 0) xs := by
  rw [mp_basis ns os _ xs h1 h2, sum_eq_single b (fun k _ hk => by simp [hk]) (fun h => absurd (by simpa using hb) h)]; simp; ring
end calculus
end Bez
