------------------------------- MODULE Arith -------------------------------
(* Numbers used by all modules.  Everything is a natural number below 2^31. *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* Least multiple of a that is not below x *)
AlignUp(x, a) == IF x % a = 0 THEN x ELSE x + (a - (x % a))

(* All powers of two that fit *)
Pow2 == [k \in 0..30 |-> 2^k]
IsPow2(n) == \E k \in 0..30 : Pow2[k] = n

(* Least power of two that is not below n (1 for 0) *)
RECURSIVE Np2From(_, _)
Np2From(n, k) == IF k >= n THEN k ELSE Np2From(n, 2 * k)
NextPow2(n) == Np2From(n, 1)

(* Numbers of up to 60 bits: <<multiple of 2^30, rest>> *)
UNIT == 1073741824
WAdd(a, n) == <<a[1] + ((a[2] + n) \div UNIT), (a[2] + n) % UNIT>>
WLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
WPow2(a) == (a[1] = 0 /\ a[2] # 0 /\ IsPow2(a[2])) \/ (a[2] = 0 /\ a[1] # 0 /\ IsPow2(a[1]))
WHalf(a) == IF a[2] # 0 THEN <<0, a[2] \div 2>> ELSE IF a[1] = 1 THEN <<0, UNIT \div 2>> ELSE <<a[1] \div 2, 0>>
(* w is the least power of two that is not below a *)
WLeastPow2(w, a) == WPow2(w) /\ WLeq(a, w) /\ ~WLeq(a, WHalf(w))

Range(f) == { f[i] : i \in DOMAIN f }
============================================================================
