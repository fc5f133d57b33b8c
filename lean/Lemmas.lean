/- Lemmas about sums, products, layouts and permutations that the contracts use as background facts.
   Every SMT-level axiom names the theorem here (nsv/lemmas.py lists the correspondence). -/
import Mathlib
open Finset

namespace NS

/-! ### layout: lin(u,v,j) = u*v+j, lfst = div, lsnd = mod, imul = product -/
def lin (u v j : ℤ) : ℤ := u * v + j
def lfst (p v : ℤ) : ℤ := p / v
def lsnd (p v : ℤ) : ℤ := p % v

theorem lin_comm (a b j : ℤ) : lin a b j = lin b a j := by unfold lin; ring
theorem lin_parts (a b j : ℤ) (h0 : 0 ≤ j) (h1 : j < b) (ha : 0 ≤ a) :
    lfst (lin a b j) b = a ∧ lsnd (lin a b j) b = j ∧ 0 ≤ lin a b j := by
  unfold lin lfst lsnd
  have hb : b ≠ 0 := by omega
  refine ⟨?_, ?_, ?_⟩
  · rw [Int.add_comm, Int.add_mul_ediv_right _ _ hb, Int.ediv_eq_zero_of_lt h0 h1]; ring
  · rw [Int.add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt h0 h1]
  · have : 0 ≤ a * b := mul_nonneg ha (by omega)
    omega
theorem lin_lt (a b j r : ℤ) (_h0 : 0 ≤ j) (h1 : j < b) (_ha : 0 ≤ a) (hr : a < r) : lin a b j < r * b := by
  unfold lin
  have : (a + 1) * b ≤ r * b := mul_le_mul_of_nonneg_right (by omega) (by omega)
  nlinarith
theorem lin_lt' (a b j r : ℤ) (h0 : 0 ≤ j) (h1 : j < b) (ha : 0 ≤ a) (hr : a < r) : lin a b j < b * r := by
  rw [mul_comm b r]; exact lin_lt a b j r h0 h1 ha hr
theorem imul_pos (a b : ℤ) (ha : 0 < a) (hb : 0 < b) : 0 < a * b ∧ a ≤ a * b ∧ b ≤ a * b := by
  refine ⟨by positivity, ?_, ?_⟩ <;> nlinarith
theorem imul_div (a b : ℤ) (ha : 0 < a) (_hb : 0 ≤ b) : lfst (a * b) a = b ∧ lfst (b * a) a = b := by
  unfold lfst
  exact ⟨Int.mul_ediv_cancel_left _ (by omega), Int.mul_ediv_cancel _ (by omega)⟩
theorem parts_lin (p b : ℤ) (hp : 0 ≤ p) (hb : 0 < b) :
    0 ≤ lfst p b ∧ 0 ≤ lsnd p b ∧ lsnd p b < b ∧ lin (lfst p b) b (lsnd p b) = p := by
  unfold lin lfst lsnd
  exact ⟨Int.ediv_nonneg hp hb.le, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ hb, Int.ediv_mul_add_emod p b⟩
theorem lfst_lt (p b r : ℤ) (_hp : 0 ≤ p) (hb : 0 < b) (h : p < r * b) : lfst p b < r := by
  unfold lfst; exact Int.ediv_lt_of_lt_mul hb h
theorem lin_imul (u v j : ℤ) : lin u v j = u * v + j ∧ (u + 1) * v = u * v + v := by
  unfold lin; constructor <;> ring

/-! ### rmul: product of reals -/
theorem rmul_zero (x y : ℝ) (h : x * y = 0) : x = 0 ∨ y = 0 := mul_eq_zero.mp h
theorem rmul_neg (x y z : ℝ) (h : x = -y) : x * z = -(y * z) ∧ z * x = -(z * y) := by subst h; constructor <;> ring
theorem rmul_cancel (x p : ℝ) (h : p ≠ 0) : x * (1 / p) * p = x := by field_simp
theorem square_nonneg (x : ℝ) : 0 ≤ x * x := mul_self_nonneg x
theorem cancel_pos (x d : ℝ) (h : 0 < d) (e : x * d = d * d) : x = d := mul_right_cancel₀ h.ne' e

/-! ### field: the algebra of one conjugate gradient step -/
theorem cg_field (ak bk tp lt rs ls : ℝ) (h1 : ak * tp = rs) (h2 : bk * rs = ls) (h3 : ak * lt = -ls) (h : rs ≠ 0) :
    lt + bk * tp = 0 := by
  have ha : ak ≠ 0 := by rintro rfl; simp at h1; exact h h1.symm
  have : ak * (lt + bk * tp) = 0 := by rw [mul_add, h3]; have : ak * (bk * tp) = bk * (ak * tp) := by ring
                                       rw [this, h1, h2]; ring
  exact (mul_eq_zero.mp this).resolve_left ha

/-! ### sums: f(0)=0, f(t+1)=f(t)+b(t) for t >= 0 -/
noncomputable def sm (b : ℤ → ℝ) (t : ℤ) : ℝ := ∑ k ∈ range t.toNat, b k

theorem sm_zero (b : ℤ → ℝ) : sm b 0 = 0 := by simp [sm]
theorem sm_unfold (b : ℤ → ℝ) (t : ℤ) (h : 0 ≤ t) : sm b (t + 1) = sm b t + b t := by
  unfold sm
  rw [Int.toNat_add h (by norm_num)]
  simp [sum_range_succ, Int.toNat_of_nonneg h]
theorem sm_congr (b c : ℤ → ℝ) (t : ℤ) : sm b t = sm c t ∨ ∃ x, 0 ≤ x ∧ x < t ∧ b x ≠ c x := by
  by_cases h : ∃ x, 0 ≤ x ∧ x < t ∧ b x ≠ c x
  · exact Or.inr h
  · left; push Not at h; unfold sm
    exact sum_congr rfl fun k hk => h k (by omega) (by have := mem_range.mp hk; omega)
theorem sm_range (b : ℤ → ℝ) (a : ℤ) (h : 0 ≤ a) (n : ℕ) : sm b (a + n) - sm b a = ∑ k ∈ range n, b (a + k) := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [sum_range_succ, ← ih]; push_cast; rw [← add_assoc, sm_unfold b (a + n) (by omega)]; ring
theorem sm_range_congr (f g : ℤ → ℝ) (a b : ℤ) (h0 : 0 ≤ a) (h : a ≤ b) :
    sm f b - sm f a = sm g b - sm g a ∨ ∃ x, a ≤ x ∧ x < b ∧ f x ≠ g x := by
  by_cases e : ∃ x, a ≤ x ∧ x < b ∧ f x ≠ g x
  · exact Or.inr e
  · left; push Not at e
    obtain ⟨n, rfl⟩ : ∃ n : ℕ, b = a + n := ⟨(b - a).toNat, by omega⟩
    rw [sm_range f a h0, sm_range g a h0]
    exact sum_congr rfl fun k hk => e _ (by omega) (by have := mem_range.mp hk; omega)
theorem sm_gap (f : ℤ → ℝ) (a b : ℤ) (h0 : 0 ≤ a) (h : a ≤ b) : sm f b = sm f a ∨ ∃ x, a ≤ x ∧ x < b ∧ f x ≠ 0 := by
  rcases sm_range_congr f (fun _ => 0) a b h0 h with e | e
  · left; simp [sm] at e ⊢; linarith
  · exact Or.inr e
/-- scalar products commute, term by term -/
theorem sm_mul_comm (u v : ℤ → ℝ) (n : ℤ) : sm (fun k => u k * v k) n = sm (fun k => v k * u k) n := by
  unfold sm; exact sum_congr rfl fun k _ => mul_comm _ _
/-- linearity in one factor; `side` 0 and 1 -/
theorem sm_linear (u1 u q v : ℤ → ℝ) (c : ℝ) (n : ℤ) :
    sm (fun k => u1 k * v k) n = sm (fun k => u k * v k) n + c * sm (fun k => q k * v k) n
    ∨ ∃ w, 0 ≤ w ∧ w < n ∧ u1 w ≠ u w + c * q w := by
  by_cases h : ∃ w, 0 ≤ w ∧ w < n ∧ u1 w ≠ u w + c * q w
  · exact Or.inr h
  · left; push Not at h; unfold sm; rw [mul_sum, ← sum_add_distrib]
    refine sum_congr rfl fun k hk => ?_
    beta_reduce
    rw [h k (by omega) (by have := mem_range.mp hk; omega)]; ring
theorem sm_linear' (u1 u q v : ℤ → ℝ) (c : ℝ) (n : ℤ) :
    sm (fun k => v k * u1 k) n = sm (fun k => v k * u k) n + c * sm (fun k => v k * q k) n
    ∨ ∃ w, 0 ≤ w ∧ w < n ∧ u1 w ≠ u w + c * q w := by
  simpa only [mul_comm] using sm_linear u1 u q v c n
/-- scalar products of vectors that agree -/
theorem sm_dot_congr (u v u2 v2 : ℤ → ℝ) (n : ℤ) :
    sm (fun k => u k * v k) n = sm (fun k => u2 k * v2 k) n ∨ ∃ w, 0 ≤ w ∧ w < n ∧ (u w ≠ u2 w ∨ v w ≠ v2 w) := by
  rcases sm_congr (fun k => u k * v k) (fun k => u2 k * v2 k) n with e | ⟨x, h0, h1, hx⟩
  · exact Or.inl e
  · right; refine ⟨x, h0, h1, ?_⟩
    by_contra hc; push Not at hc; exact hx (by simp [hc.1, hc.2])
/-- exchanging a double sum -/
theorem sm_swap (f : ℤ → ℤ → ℝ) (n m : ℤ) : sm (fun i => sm (fun j => f i j) m) n = sm (fun j => sm (fun i => f i j) n) m := by
  unfold sm; exact sum_comm
/-- assoc: (L U) X = L (U X) -/
theorem sm_assoc (l u x : ℤ → ℤ → ℝ) (n i j : ℤ) :
    sm (fun t => sm (fun s => l i s * u s t) n * x t j) n = sm (fun s => l i s * sm (fun t => u s t * x t j) n) n := by
  have h1 : ∀ t, sm (fun s => l i s * u s t) n * x t j = sm (fun s => l i s * u s t * x t j) n := by
    intro t; unfold sm; rw [sum_mul]
  have h2 : ∀ s, l i s * sm (fun t => u s t * x t j) n = sm (fun t => l i s * u s t * x t j) n := by
    intro s; unfold sm; rw [mul_sum]; exact sum_congr rfl fun _ _ => by ring
  simp only [h1, h2]; exact sm_swap (fun t s => l i s * u s t * x t j) n n
/-- symmetry: (A p1).p = (A p).p1 for symmetric A -/
theorem sm_symm (a : ℤ → ℤ → ℝ) (p q : ℤ → ℝ) (n : ℤ) (h : ∀ i j, 0 ≤ i → i < n → 0 ≤ j → j < n → a i j = a j i) :
    sm (fun i => sm (fun j => a i j * q j) n * p i) n = sm (fun i => sm (fun j => a i j * p j) n * q i) n := by
  have e : ∀ p q : ℤ → ℝ, sm (fun i => sm (fun j => a i j * q j) n * p i) n = sm (fun i => sm (fun j => a i j * q j * p i) n) n := by
    intro p q; unfold sm; exact sum_congr rfl fun i _ => sum_mul _ _ _
  rw [e p q, e q p, sm_swap]; unfold sm
  refine sum_congr rfl fun j hj => sum_congr rfl fun i hi => ?_
  have := mem_range.mp hi; have := mem_range.mp hj
  beta_reduce
  rw [h i j (by omega) (by omega) (by omega) (by omega)]; ring

/-! ### surj, parity, determinant -/
theorem surj {n : ℕ} (p : Fin n → Fin n) (h : ∀ i j, i ≠ j → p i ≠ p j) : ∀ r, ∃ i, p i = r :=
  Finite.surjective_of_injective fun i j e => by_contra fun hij => h i j hij e

/-- parity of a table without repetition; 0 is even -/
noncomputable def par {n : ℕ} (p : Equiv.Perm (Fin n)) : ℤ := if Equiv.Perm.sign p = 1 then 0 else 1
theorem par_identity {n : ℕ} : par (1 : Equiv.Perm (Fin n)) = 0 := by simp [par]
theorem par_swap {n : ℕ} (p : Equiv.Perm (Fin n)) (x y : Fin n) (h : x ≠ y) : par (p * Equiv.swap x y) = 1 - par p := by
  unfold par; rw [Equiv.Perm.sign_mul, Equiv.Perm.sign_swap h]
  rcases Int.units_eq_one_or (Equiv.Perm.sign p) with e | e <;> simp [e]
/-- the table with entries x and y exchanged is p * swap x y -/
theorem swap_table {n : ℕ} (p : Equiv.Perm (Fin n)) (x y w : Fin n) :
    (p * Equiv.swap x y) w = if w = x then p y else if w = y then p x else p w := by
  simp only [Equiv.Perm.mul_apply, Equiv.swap_apply_def]; split_ifs <;> rfl
theorem determinant {n : ℕ} (A L U : Matrix (Fin n) (Fin n) ℝ) (p : Equiv.Perm (Fin n))
    (h : ∀ i j, ∑ t, L i t * U t j = A (p i) j) (hl : ∀ i j, i < j → L i j = 0) (h1 : ∀ i, L i i = 1) (hu : ∀ i j, j < i → U i j = 0) :
    A.det = if par p = 0 then ∏ i, U i i else -∏ i, U i i := by
  have hm : L * U = A.submatrix p id := by ext i j; rw [Matrix.mul_apply]; exact h i j
  have hd : (L * U).det = ∏ i, U i i := by
    rw [Matrix.det_mul, Matrix.det_of_isLowerTriangular L (fun i j hij => hl i j hij), Matrix.det_of_isUpperTriangular (fun i j hij => hu i j hij)]
    simp [h1]
  rw [hm, Matrix.det_permute] at hd
  unfold par
  rcases Int.units_eq_one_or (Equiv.Perm.sign p) with e | e
  · simp [e] at hd ⊢; exact hd
  · simp [e] at hd ⊢; linarith

/-! ### binomial coefficients -/
theorem choose_one (n : ℕ) : n.choose 0 = 1 ∧ n.choose 1 = n := by simp
theorem choose_mul (n k : ℕ) (hn : 1 ≤ n) (hk : 1 ≤ k) : k * n.choose k = n * (n - 1).choose (k - 1) := by
  obtain ⟨n, rfl⟩ := Nat.exists_eq_add_of_le' hn; obtain ⟨k, rfl⟩ := Nat.exists_eq_add_of_le' hk
  simp; rw [Nat.add_one_mul_choose_eq n k, mul_comm]
theorem choose_symm (n k : ℕ) (h : k ≤ n) : n.choose k = n.choose (n - k) ∧ 0 < n.choose k := ⟨(Nat.choose_symm h).symm, Nat.choose_pos h⟩
theorem choose_big (n k : ℕ) (h : n < k) : n.choose k = 0 := Nat.choose_eq_zero_of_lt h

/-! ### cells: n stored cells at distinct row-major positions below N -/
theorem cells_le {n N : ℕ} (P : Fin n → Fin N) (h : Function.Injective P) : n ≤ N := by simpa using Fintype.card_le_of_injective P h
theorem cells_unstored {n N : ℕ} (P : Fin n → ℕ) (h : n < N) : ∃ u, u ≤ n ∧ u < N ∧ ∀ k, P k ≠ u := by
  by_contra hc; push Not at hc
  have : ∀ u : Fin (n + 1), ∃ k, P k = u := fun u => hc u (by omega) (by omega)
  choose g hg using this
  have hi : Function.Injective g := fun a b e => Fin.ext (by rw [← hg a, ← hg b, e])
  have := Fintype.card_le_of_injective g hi
  simp at this
theorem cells_full {n : ℕ} (P : Fin n → Fin n) (h : Function.Injective P) : ∀ u, ∃ k, P k = u := Finite.surjective_of_injective h

/-! ### firstdiff / first: the least index with a property below n, or n -/
theorem first (n : ℕ) (q : ℕ → Prop) : ∃ d, d ≤ n ∧ (d < n → q d) ∧ (∀ k, k < n → q k → d ≤ k) ∧ ∀ k, k < d → ¬ q k := by
  classical
  by_cases h : ∃ k, k < n ∧ q k
  · refine ⟨Nat.find h, (Nat.find_spec h).1.le, fun _ => (Nat.find_spec h).2, fun k hk hq => Nat.find_min' h ⟨hk, hq⟩, fun k hk hq => ?_⟩
    exact Nat.find_min h hk ⟨hk.trans (Nat.find_spec h).1, hq⟩
  · push Not at h
    exact ⟨n, le_refl _, fun e => absurd e (lt_irrefl _), fun k hk hq => absurd hq (h k hk), fun k hk => h k hk⟩

/-! ### rows: the row of a stored cell and the position of a cell exist -/
theorem row_exists (R n : ℕ) (rp : ℕ → ℕ) (hR : 0 < R) (h0 : rp 0 = 0) (hm : ∀ i k, i ≤ k → k < R → rp i ≤ rp k) :
    ∃ row : ℕ → ℕ, ∀ p, p < n → row p < R ∧ rp (row p) ≤ p ∧ ∀ i, i < R → (rp i ≤ p ↔ i ≤ row p) := by
  classical
  refine ⟨fun p => Nat.findGreatest (fun i => rp i ≤ p) (R - 1), fun p _ => ?_⟩
  have hs : rp (Nat.findGreatest (fun i => rp i ≤ p) (R - 1)) ≤ p :=
    Nat.findGreatest_spec (P := fun i => rp i ≤ p) (Nat.zero_le _) (by simp [h0])
  have hb : Nat.findGreatest (fun i => rp i ≤ p) (R - 1) ≤ R - 1 := Nat.findGreatest_le _
  beta_reduce
  refine ⟨by omega, hs, fun i hi => ⟨fun h => Nat.le_findGreatest (by omega) h, fun h => (hm _ _ h (by omega)).trans hs⟩⟩
theorem pos_exists (n : ℕ) (row col : ℕ → ℤ) (h : ∀ p q, p < q → q < n → row p = row q → col p < col q) :
    ∃ pos : ℤ → ℤ → ℤ, (∀ i j, -1 ≤ pos i j ∧ pos i j < n ∧ (0 ≤ pos i j → row (pos i j).toNat = i ∧ col (pos i j).toNat = j))
      ∧ ∀ p : ℕ, p < n → pos (row p) (col p) = p := by
  classical
  refine ⟨fun i j => if h : ∃ p, p < n ∧ row p = i ∧ col p = j then (h.choose : ℤ) else -1, fun i j => ?_, fun p hp => ?_⟩
  · by_cases e : ∃ p, p < n ∧ row p = i ∧ col p = j
    · have s := e.choose_spec
      simp only [e, dif_pos]; refine ⟨by omega, by exact_mod_cast s.1, fun _ => ?_⟩
      simpa using s.2
    · simp only [e, dif_neg, not_false_eq_true]; omega
  · have e : ∃ q, q < n ∧ row q = row p ∧ col q = col p := ⟨p, hp, rfl, rfl⟩
    have s := e.choose_spec
    simp only [e, dif_pos]
    rcases lt_trichotomy e.choose p with c | c | c
    · have := h _ _ c hp s.2.1; omega
    · exact_mod_cast c
    · have := h _ _ c s.1 s.2.1.symm; omega
/-- the place of an element in a list without repetition -/
theorem place_exists (n : ℕ) (l : ℕ → ℤ) (h : ∀ i j, i < j → j < n → l i ≠ l j) :
    ∃ (mem : ℤ → Prop) (pl : ℤ → ℕ), (∀ k, k < n → mem (l k) ∧ pl (l k) = k) ∧ ∀ e, mem e → pl e < n ∧ l (pl e) = e := by
  classical
  refine ⟨fun e => ∃ k, k < n ∧ l k = e, fun e => if h : ∃ k, k < n ∧ l k = e then h.choose else 0, fun k hk => ?_, fun e he => ?_⟩
  · have e : ∃ q, q < n ∧ l q = l k := ⟨k, hk, rfl⟩
    have s := e.choose_spec
    refine ⟨e, ?_⟩
    simp only [e, dif_pos]
    rcases lt_trichotomy e.choose k with c | c | c
    · exact absurd s.2 (h _ _ c hk)
    · exact c
    · exact absurd s.2.symm (h _ _ c s.1)
  · simp only [he, dif_pos]; exact he.choose_spec

/-! ### grid: corners P00 = (x,y), P10 = (x+a,y), P01 = (x,y+b), P11 = (x+a,y+b); the triangles (P00,P01,P11) and
   (P00,P11,P10) have the same orientation and tile the cell (they share the diagonal s = t only) -/
theorem cell_orientation (x y a b : ℝ) :
    (x - x) * (y + b - y) - (y + b - y) * (x + a - x) = -(a * b) ∧ (x + a - x) * (y - y) - (y + b - y) * (x + a - x) = -(a * b) := by
  constructor <;> ring
theorem cell_tiling (s t : ℝ) :
    ((∃ l m : ℝ, 0 ≤ l ∧ 0 ≤ m ∧ l + m ≤ 1 ∧ s = l * 0 + m * 1 ∧ t = l * 1 + m * 1) ↔ 0 ≤ s ∧ s ≤ t ∧ t ≤ 1)
    ∧ ((∃ l m : ℝ, 0 ≤ l ∧ 0 ≤ m ∧ l + m ≤ 1 ∧ s = l * 1 + m * 1 ∧ t = l * 1 + m * 0) ↔ 0 ≤ t ∧ t ≤ s ∧ s ≤ 1) := by
  constructor
  · constructor
    · rintro ⟨l, m, h1, h2, h3, rfl, rfl⟩; refine ⟨?_, ?_, ?_⟩ <;> linarith
    · rintro ⟨h1, h2, h3⟩; exact ⟨t - s, s, by linarith, h1, by linarith, by ring, by ring⟩
  · constructor
    · rintro ⟨l, m, h1, h2, h3, rfl, rfl⟩; refine ⟨?_, ?_, ?_⟩ <;> linarith
    · rintro ⟨h1, h2, h3⟩; exact ⟨t, s - t, h1, by linarith, by linarith, by ring, by ring⟩
end NS
