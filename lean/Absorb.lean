/-!
The laws of block absorption that sha1vc's theory (engine/sym/abs.go) uses, and
the lemma over histories that the contracts of `Write` compose to.

`step h b` is the specification's step: the next chaining value and whether the
block is flagged. Nothing about it is used here, so the laws hold for whatever
function the step contract names.
-/

namespace Absorb

variable {H B : Type} (step : H → List B → H × Bool)

/-- Fold `step` over the whole 64-byte blocks of `q`. -/
def absorb (h : H) (q : List B) : H × Bool :=
  if _hq : 64 ≤ q.length then
    let s := step h (q.take 64)
    let r := absorb s.1 (q.drop 64)
    (r.1, s.2 || r.2)
  else (h, false)
termination_by q.length
decreasing_by simp only [List.length_drop]; omega

theorem absorb_short (h : H) (q : List B) (hq : q.length < 64) :
    absorb step h q = (h, false) := by
  rw [absorb]; simp; omega

/-- absorb(h, empty) = h, flagged(h, empty) = false -/
theorem absorb_nil (h : H) : absorb step h [] = (h, false) :=
  absorb_short step h [] (by simp)

/-- absorb/flagged of one block = the specification's step -/
theorem absorb_block (h : H) (b : List B) (hb : b.length = 64) :
    absorb step h b = step h b := by
  rw [absorb]
  have h1 : b.take 64 = b := List.take_of_length_le (by omega)
  have h2 : b.drop 64 = [] := List.drop_of_length_le (by omega)
  simp [hb, h1, h2, absorb_nil]

/-- absorb(absorb(h, q1), q2) = absorb(h, q1 ++ q2) and
flagged(h, q1 ++ q2) = flagged(h, q1) || flagged(absorb(h, q1), q2),
if q1 is made of whole blocks. -/
theorem absorb_append (h : H) (q₁ q₂ : List B) (hq : q₁.length % 64 = 0) :
    absorb step h (q₁ ++ q₂) =
      ((absorb step (absorb step h q₁).1 q₂).1,
        (absorb step h q₁).2 || (absorb step (absorb step h q₁).1 q₂).2) := by
  generalize hn : q₁.length = n
  induction n using Nat.strongRecOn generalizing h q₁ with
  | ind n ih =>
    by_cases h0 : q₁.length < 64
    · have : q₁ = [] := List.eq_nil_of_length_eq_zero (by omega)
      subst this
      simp [absorb_nil]
    · have hge : 64 ≤ q₁.length := by omega
      have ht : (q₁ ++ q₂).take 64 = q₁.take 64 := by
        rw [List.take_append_of_le_length hge]
      have hd : (q₁ ++ q₂).drop 64 = q₁.drop 64 ++ q₂ := by
        rw [List.drop_append_of_le_length hge]
      have hl : 64 ≤ (q₁ ++ q₂).length := by simp; omega
      rw [absorb, dif_pos hl, ht, hd]
      rw [show absorb step h q₁ = _ from by rw [absorb, dif_pos hge]]
      have hrec := ih (q₁.drop 64).length (by simp; omega)
        (step h (q₁.take 64)).1 (q₁.drop 64) (by simp; omega) rfl
      simp only [hrec, Bool.or_assoc]

/-! ### Histories

The state a hasher stands for: chaining value, pending bytes (fewer than 64),
bytes seen modulo 2^64, verdict. -/

structure Digest (H B : Type) where
  h : H
  pend : List B
  len : BitVec 64
  col : Bool

namespace Digest

def write (d : Digest H B) (p : List B) : Digest H B :=
  let buf := d.pend ++ p
  let full := buf.length - buf.length % 64
  let r := absorb step d.h (buf.take full)
  { h := r.1, pend := buf.drop full, len := d.len + BitVec.ofNat 64 p.length, col := d.col || r.2 }

theorem write_pend (d : Digest H B) (p : List B) : (d.write step p).pend.length < 64 := by
  simp only [write, List.length_drop]; omega

theorem write_nil (d : Digest H B) (hd : d.pend.length < 64) : d.write step [] = d := by
  have hf : d.pend.length - d.pend.length % 64 = 0 := by omega
  simp [write, hf, absorb_nil]

/-- One write of p ++ q is a write of p followed by a write of q: the law that
makes every split of a message equivalent (C05, and with it C01, C02, C04, C18). -/
theorem write_append (d : Digest H B) (p q : List B) :
    (d.write step p).write step q = d.write step (p ++ q) := by
  have key : ∀ (buf : List B), let full := buf.length - buf.length % 64
      let buf2 := buf.drop full ++ q
      let full2 := buf2.length - buf2.length % 64
      let buf3 := buf ++ q
      let full3 := buf3.length - buf3.length % 64
      buf3.take full3 = buf.take full ++ buf2.take full2 ∧ buf3.drop full3 = buf2.drop full2 := by
    intro buf full buf2 full2 buf3 full3
    have hb : buf3 = buf.take full ++ buf2 := by
      simp only [buf3, buf2, ← List.append_assoc, List.take_append_drop]
    have hlt : (buf.take full).length = full := by
      simp only [List.length_take, full]; omega
    have h2 : buf2.length = buf.length % 64 + q.length := by
      simp only [buf2, List.length_append, List.length_drop, full]; omega
    have h3 : full3 = full + full2 := by
      have : buf3.length = full + buf2.length := by rw [hb, List.length_append, hlt]
      simp only [full3, full2, this]
      have : full % 64 = 0 := by simp only [full]; omega
      omega
    constructor
    · rw [hb, h3, List.take_append, hlt, List.take_of_length_le (by omega)]
      congr 2; omega
    · rw [hb, h3, List.drop_append, hlt, List.drop_of_length_le (by omega), List.nil_append]
      congr 1; omega
  have k := key (d.pend ++ p)
  simp only at k
  have hz : ((d.pend ++ p).take ((d.pend ++ p).length - (d.pend ++ p).length % 64)).length % 64 = 0 := by
    simp only [List.length_take]; omega
  simp only [write, ← List.append_assoc]
  rw [k.1, k.2, absorb_append step _ _ _ hz]
  simp [Bool.or_assoc, BitVec.add_assoc, BitVec.ofNat_add]

/-- Every history of writes leaves the state of the one-shot write of the
whole message. -/
theorem writes_eq (d : Digest H B) (hd : d.pend.length < 64) (ps : List (List B)) :
    ps.foldl (fun d p => d.write step p) d = d.write step ps.flatten := by
  induction ps generalizing d with
  | nil => simp [write_nil step d hd]
  | cons p ps ih =>
    simp only [List.foldl_cons, List.flatten_cons]
    rw [ih (d.write step p) (write_pend step d p), write_append]

end Digest

/-! The bit-length arithmetic of the padding: shifting the byte count modulo
2^64 by three is the exact number of bits modulo 2^64 (C18). -/
theorem bits_mod (n : Nat) : (BitVec.ofNat 64 n) <<< 3 = BitVec.ofNat 64 (8 * n) := by
  apply BitVec.eq_of_toNat_eq
  simp [BitVec.toNat_shiftLeft, BitVec.toNat_ofNat, Nat.shiftLeft_eq]
  omega

/-- 0x80, the minimal number of zero bytes and eight length bytes complete
the last block. -/
theorem pad_len (n : Nat) :
    let z := (55 + 64 - n % 64) % 64
    (n + 1 + z + 8) % 64 = 0 ∧ ∀ y, (n + 1 + y + 8) % 64 = 0 → z ≤ y := by
  intro z
  constructor
  · simp only [z]; omega
  · intro y hy; simp only [z]; omega

end Absorb

#print axioms Absorb.Digest.writes_eq
#print axioms Absorb.absorb_append
