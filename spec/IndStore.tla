------------------------------ MODULE IndStore ------------------------------
(***************************************************************************)
(* The arithmetic of positions and capacities as AlignedVec and the default *)
(* methods of Storage do it, in numbers of any size, for Apalache: from     *)
(* every state in which Inv holds, for every maximum that module Config     *)
(* allows and every request, one step (--length=1 from Init) keeps Inv, is  *)
(* what C05, C06, C15 and C16 demand, and no number on the way needs more   *)
(* than 64 bits.  So all steps do.  (MCStore checks the same for tiny       *)
(* numbers, along with memory and everything else.)                         *)
(* Alignments are literals, from the configuration; the rest is symbolic.   *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  SA,
  \* @type: Int;
  MVA,
  \* @type: Int;
  VA,
  \* a deliberate error
  \* @type: Str;
  MUTANT

VARIABLES
  \* MAX_CAPACITY, and the power of two that comes next
  \* @type: Int;
  max,
  \* @type: Int;
  maxp,
  \* @type: Int;
  pos,
  \* @type: Int;
  cap,
  \* the step just made, what was asked for, where it starts, whether it succeeded, whether anything overflowed
  \* @type: Str;
  op,
  \* @type: Int;
  add,
  \* @type: Int;
  start,
  \* @type: Bool;
  ok,
  \* @type: Bool;
  wide,
  \* what was before
  \* @type: Int;
  pos0,
  \* @type: Int;
  cap0

W == 2^64
Pows == { 2^0, 2^1, 2^2, 2^3, 2^4, 2^5, 2^6, 2^7, 2^8, 2^9, 2^10, 2^11, 2^12, 2^13, 2^14, 2^15,
          2^16, 2^17, 2^18, 2^19, 2^20, 2^21, 2^22, 2^23, 2^24, 2^25, 2^26, 2^27, 2^28, 2^29, 2^30, 2^31,
          2^32, 2^33, 2^34, 2^35, 2^36, 2^37, 2^38, 2^39, 2^40, 2^41, 2^42, 2^43, 2^44, 2^45, 2^46, 2^47,
          2^48, 2^49, 2^50, 2^51, 2^52, 2^53, 2^54, 2^55, 2^56, 2^57, 2^58, 2^59, 2^60, 2^61, 2^62, 2^63 }
\* alignments of what is pushed
Als == { 1, 2, 4, 8, 16, 64, 4096, 2^20, 2^29 }

Up(x, a) == ((x + a - 1) \div a) * a
(* (division by literals only) *)
AlignUp(x, a) ==
  IF a = 1 THEN x ELSE IF a = 2 THEN Up(x, 2) ELSE IF a = 4 THEN Up(x, 4) ELSE IF a = 8 THEN Up(x, 8)
  ELSE IF a = 16 THEN Up(x, 16) ELSE IF a = 64 THEN Up(x, 64) ELSE IF a = 4096 THEN Up(x, 4096)
  ELSE IF a = 2^20 THEN Up(x, 2^20) ELSE Up(x, 2^29)
Mult(x, a) == AlignUp(x, a) = x

IsNextPow2(p, n) == p \in Pows /\ p >= n /\ (p = 1 \/ p < 2 * n)
AtLeast(x, y) == IF x < y THEN y ELSE x
AtMost(x, y) == IF x > y THEN y ELSE x

(* What a valid configuration is (module Config) *)
Valid ==
  /\ VA <= MVA /\ MVA <= SA
  /\ max > 0 /\ (MUTANT = "max" \/ Mult(max, MVA)) /\ max <= 2^63 - (IF MUTANT = "layout" THEN 0 ELSE SA)
  /\ IsNextPow2(maxp, max)
Inv ==
  /\ Valid
  /\ 0 <= pos /\ pos <= cap /\ cap <= max
  /\ Mult(cap, MVA) /\ Mult(pos, VA)
TypeOK == /\ op \in {"init", "push", "reserve", "clear", "shrink", "withcap", "alignfor"} /\ ok \in BOOLEAN /\ wide \in BOOLEAN
          /\ add \in Int /\ start \in Int /\ pos0 \in Int /\ cap0 \in Int
          /\ max \in Int /\ maxp \in Int /\ pos \in Int /\ cap \in Int

Init == TypeOK /\ Inv /\ op = "init" /\ ok /\ ~wide /\ add = 0 /\ start = 0 /\ pos0 = pos /\ cap0 = cap

Same == UNCHANGED <<max, maxp>> /\ pos0' = pos /\ cap0' = cap

(* reserve and grow_for_reserve: capacity c after n more bytes at position q *)
(* have been asked for; good: it did not panic; w: something overflowed      *)
Reserve(q, n, c, good, w) ==
  \/ n <= cap - q /\ c = cap /\ good /\ w = (cap - q < 0)
  \/ /\ n > cap - q
     /\ LET need == q + n IN
        \/ need >= W /\ ~good /\ c = cap /\ w = (MUTANT = "checked")
        \/ /\ need < W
           /\ \/ /\ need > maxp \div (IF MUTANT = "half" THEN 4 ELSE 2)
                 /\ \/ need > max /\ ~good /\ c = cap /\ w = FALSE
                    \/ need <= max /\ good /\ c = max /\ w = FALSE
              \/ /\ need <= maxp \div (IF MUTANT = "half" THEN 4 ELSE 2)
                 /\ good
                 /\ \E p \in Pows : /\ IsNextPow2(p, need)
                                    /\ c = (IF cap = 0 /\ MUTANT # "first" THEN AtLeast(p, MVA) ELSE p)
                                    /\ w = (p >= W)

(* n bytes with alignment a: align_for, reserve, write, align_after *)
Push ==
  \E a \in Als : \E n \in Int : \E c \in Int : \E g \in BOOLEAN : \E w \in BOOLEAN :
    /\ a <= MVA /\ n > 0 /\ n < 2^63 /\ op' = "push" /\ add' = n
    /\ LET q == IF a > VA THEN AlignUp(pos, a) ELSE pos IN
       /\ start' = q
       /\ Reserve(q, n, c, g, w)
       /\ ok' = g
       /\ cap' = c
       /\ pos' = IF g THEN AlignUp(q + n, IF MUTANT = "after" THEN MVA ELSE VA) ELSE q
       /\ wide' = (w \/ pos + a - 1 >= W \/ (g /\ q + n + VA - 1 >= W))
       /\ Same
DoReserve ==
  \E n \in Int : \E c \in Int : \E g \in BOOLEAN : \E w \in BOOLEAN :
    /\ n >= 0 /\ n < W /\ op' = "reserve" /\ add' = n /\ start' = pos
    /\ Reserve(pos, n, c, g, w) /\ ok' = g /\ cap' = c /\ pos' = pos /\ wide' = w /\ Same
AlignFor ==
  \E a \in Als : /\ a <= MVA /\ op' = "alignfor" /\ pos' = (IF a > VA THEN AlignUp(pos, a) ELSE pos)
                 /\ cap' = cap /\ ok' = TRUE /\ add' = 0 /\ start' = pos' /\ wide' = (pos + a - 1 >= W) /\ Same
Clear == op' = "clear" /\ pos' = 0 /\ cap' = cap /\ ok' = TRUE /\ add' = 0 /\ start' = 0 /\ wide' = FALSE /\ Same
Shrink == /\ op' = "shrink" /\ pos' = pos /\ cap' = AlignUp(pos, IF MUTANT = "shrink" THEN VA ELSE MVA)
          /\ ok' = TRUE /\ add' = 0 /\ start' = pos /\ wide' = (pos + MVA - 1 >= W) /\ Same
WithCap ==
  \E n \in Int : /\ n >= 0 /\ n < W /\ op' = "withcap" /\ add' = n /\ start' = 0 /\ pos' = 0
                 /\ ok' = (n <= max)
                 /\ cap' = (IF n <= max THEN AlignUp(n, MVA) ELSE 0)
                 /\ wide' = ((n <= max \/ MUTANT = "before") /\ n + MVA - 1 >= W)
                 /\ Same
Next == Push \/ DoReserve \/ AlignFor \/ Clear \/ Shrink \/ WithCap

(* What the properties demand of the step just made *)
StepOK ==
  /\ ~wide
  \* (what is given to the allocator)
  /\ AlignUp(cap, SA) < 2^63
  /\ (op \in {"push", "reserve"} =>
        /\ (ok <=> start + add <= max)
        /\ (~ok => cap = cap0)
        /\ (ok => start + add <= cap)
        /\ (ok /\ start + add <= cap0 => cap = cap0)
        /\ (ok /\ start + add > cap0 =>
              \E p \in Pows : IsNextPow2(p, start + add) /\ cap = AtMost(AtLeast(p, MVA), max)))
  /\ (op = "push" /\ ok => pos >= start + add /\ pos - (start + add) < VA)
  /\ (op = "push" => start - pos0 < MVA)
  /\ (op = "shrink" => cap >= pos /\ cap - pos < MVA /\ cap <= cap0)
  /\ (op = "withcap" => (ok <=> add <= max) /\ (ok => cap >= add /\ cap - add < MVA))
Good == Inv /\ StepOK
=============================================================================
