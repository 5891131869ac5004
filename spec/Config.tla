------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Which storages there are: the rules for the four parameters, which      *)
(* types a storage takes, and the helpers that calculate parameters.       *)
(* Numbers of 64 bits: four digits of 16 bits, most significant first.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

D == 65536
N(x) == <<0, 0, x \div D, x % D>>
P2(k) == [i \in 1..4 |-> IF 4 - i = k \div 16 THEN 2^(k % 16) ELSE 0]
Zero == N(0)
Leq(a, b) == \/ a = b
             \/ \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Less(a, b) == Leq(a, b) /\ a # b
(* modulo 2^64 *)
AddC(a, b, c0) ==
  LET d0 == a[4] + b[4] + c0
      d1 == a[3] + b[3] + (d0 \div D)
      d2 == a[2] + b[2] + (d1 \div D)
      d3 == a[1] + b[1] + (d2 \div D)
  IN <<d3 % D, d2 % D, d1 % D, d0 % D>>
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, [i \in 1..4 |-> D - 1 - b[i]], 1)
IsP2(a) == \E k \in 0..63 : a = P2(k)
Exp(a) == CHOOSE k \in 0..63 : a = P2(k)
(* a is a multiple of 2^k *)
Mul(a, k) == \A i \in 1..4 : LET low == k - 16 * (4 - i) IN
               low <= 0 \/ (IF low >= 16 THEN a[i] = 0 ELSE a[i] % (2^low) = 0)
Half(a) == <<a[1] \div 2, (a[1] % 2) * (D \div 2) + a[2] \div 2, (a[2] % 2) * (D \div 2) + a[3] \div 2,
             (a[3] % 2) * (D \div 2) + a[4] \div 2>>

IMAX == <<D \div 2 - 1, D - 1, D - 1, D - 1>>
U32MAX == <<0, 0, D - 1, D - 1>>

---------------------------------------------------------------------------
(* The helpers refuse (Refused) what is no alignment *)
Refused == <<>>
IsAlignment(a) == IsP2(a) /\ Less(a, IMAX)
(* largest capacity that, rounded up to the alignment, is not above isize::MAX *)
MaxCapacity(a) == IF IsAlignment(a) THEN Sub(P2(63), a) ELSE Refused
MaxU32Capacity(a) == IF IsAlignment(a) /\ Less(a, U32MAX) THEN P2(32) ELSE Refused

(* The rules.  c: [sa, mva, va, max] *)
Broken(c) ==
  (IF IsAlignment(c.sa) THEN {} ELSE {"sa"})
  \cup (IF IsP2(c.mva) THEN {} ELSE {"mva"})
  \cup (IF Leq(c.mva, c.sa) THEN {} ELSE {"mva above sa"})
  \cup (IF IsP2(c.va) THEN {} ELSE {"va"})
  \cup (IF Leq(c.va, c.mva) THEN {} ELSE {"va above mva"})
  \cup (IF c.max # Zero THEN {} ELSE {"max zero"})
  \cup (IF IsAlignment(c.sa) => Leq(c.max, MaxCapacity(c.sa)) THEN {} ELSE {"max too large"})
  \cup (IF IsP2(c.mva) => Mul(c.max, Exp(c.mva)) THEN {} ELSE {"max no multiple"})
Valid(c) == Broken(c) = {}

(* A type of some size can be stored if it is not aligned beyond the maximum *)
Storable(c, al) == Leq(al, c.mva)

---------------------------------------------------------------------------
(* What the rules are for: whatever is requested, the capacity a valid      *)
(* storage takes is a proper one                                            *)
NextP2(a) == IF \E k \in 0..63 : Leq(a, P2(k))
             THEN P2(CHOOSE k \in 0..63 : Leq(a, P2(k)) /\ (k = 0 \/ ~Leq(a, P2(k - 1)))) ELSE Zero
Grown(c, need) ==
  IF ~Leq(need, Half(NextP2(c.max))) THEN c.max
  ELSE IF Leq(NextP2(need), c.mva) THEN c.mva ELSE NextP2(need)
Proper(c, cap, need) ==
  /\ Leq(need, cap) /\ Leq(cap, c.max) /\ Mul(cap, Exp(c.mva))
  /\ Less(Sub(cap, N(1)), P2(63)) /\ Leq(Add(cap, Sub(c.sa, N(1))), IMAX)
============================================================================
