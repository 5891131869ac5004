------------------------------- MODULE IndPtr -------------------------------
(***************************************************************************)
(* Why pointers in complete output are right, with addresses and positions  *)
(* of any size, for Apalache.  One pointer among any number of others is    *)
(* followed: Inv says what its word contains, whichever places the          *)
(* reallocations had; it is inductive, and finalize makes the word the      *)
(* address of its target.  (MCSer checks the same for all pointers at once, *)
(* for few of them and few places.)  Numbers wrap at 64 bits, as they do in *)
(* the code.                                                                *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Str;
  MUTANT

VARIABLES
  \* the address of the buffer
  \* @type: Int;
  base,
  \* the current group: its address, whether it has no pointers
  \* @type: Int;
  cur,
  \* @type: Bool;
  none,
  \* the pointer: where it is recorded (nowhere, in the current group, in a past one with address past), its word, its target
  \* @type: Str;
  grp,
  \* @type: Int;
  past,
  \* @type: Int;
  word,
  \* @type: Int;
  target,
  \* @type: Bool;
  written,
  \* @type: Bool;
  final

W == 2^64
Wrap(x) == IF x >= W THEN x - W ELSE IF x < 0 THEN x + W ELSE x
Address(a) == a >= 1 /\ a < 2^63

TypeOK == /\ base \in Int /\ cur \in Int /\ none \in BOOLEAN /\ grp \in {"nowhere", "current", "past"} /\ past \in Int
          /\ word \in Int /\ target \in Int /\ final \in BOOLEAN /\ written \in BOOLEAN
Inv ==
  /\ Address(base) /\ cur >= 0 /\ cur < W /\ target >= 0 /\ target < 2^63 /\ word >= 0 /\ word < W
  /\ (~none => Address(cur))
  /\ (written <=> grp # "nowhere")
  /\ (~final /\ grp = "current" => ~none /\ word = cur + target)
  /\ (~final /\ grp = "past" => Address(past) /\ word = past + target)
  /\ (final /\ written => word = base + target)
Init == TypeOK /\ Inv /\ ~final
(* (an address, and what starts there, lie in the address space) *)
Fits(b) == Address(b) /\ b + target < 2^63

(* the storage grows or shrinks, and is somewhere else (or not) *)
Move == /\ ~final /\ \E b \in Int : Fits(b) /\ base' = b
        /\ UNCHANGED <<cur, none, grp, past, word, target, written, final>>

(* do_overwrite_ptr: a pointer is written, this one (at most once) or another *)
Write ==
  \E mine \in BOOLEAN : \E t \in Int :
    /\ ~final /\ (mine => ~written) /\ t >= 0 /\ base + t < 2^63
    /\ LET switch == base # cur /\ ~(MUTANT = "no switch" /\ ~none)
           pushed == switch /\ ~none
           in1 == IF pushed /\ grp = "current" THEN IF MUTANT = "forgotten" THEN "nowhere" ELSE "past" ELSE grp IN
       /\ cur' = IF switch /\ ~(MUTANT = "address kept" /\ none) THEN base ELSE cur
       /\ none' = FALSE
       /\ past' = IF pushed /\ grp = "current" THEN IF MUTANT = "new address" THEN base ELSE cur ELSE past
       /\ grp' = IF mine THEN "current" ELSE in1
       /\ word' = IF mine THEN Wrap(base + t) ELSE word
       /\ target' = IF mine THEN t ELSE target
    /\ written' = (written \/ mine)
    /\ UNCHANGED <<base, final>>

(* correct_ptrs: the difference of the addresses is added, wrapping *)
Corrected(g) == IF g = base THEN word
                ELSE LET shift == Wrap(base - g) IN IF MUTANT = "32 bits" THEN Wrap(word + (shift % 2^32)) ELSE Wrap(word + shift)
Finalize ==
  /\ ~final /\ final' = TRUE
  /\ word' = IF grp = "current" /\ ~none THEN Corrected(cur)
             ELSE IF grp = "past" /\ MUTANT # "past not corrected" THEN Corrected(past) ELSE word
  /\ UNCHANGED <<base, cur, none, grp, past, target, written>>
Next == Move \/ Write \/ Finalize

Good == Inv
=============================================================================
