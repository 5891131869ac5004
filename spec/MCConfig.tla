------------------------------ MODULE MCConfig ------------------------------
(* All combinations of interesting parameters: chosen one after another,     *)
(* built, then used for requests of interesting sizes                        *)
EXTENDS Config, TLC, Json, IOUtils

CONSTANTS ROUND,   \* exponents of alignments
          MUTANT   \* "none", or a rule to forget

VARIABLES phase, c, cap
vars == <<phase, c, cap>>

Odd == {Zero, N(3), N(6), N(24), Add(P2(20), N(1)), Add(P2(40), N(8))}
SAs == {P2(k) : k \in ROUND} \cup Odd \cup {P2(61), P2(62), P2(63), IMAX, Sub(IMAX, N(1)), Add(P2(62), P2(62))}
MVAs(sa) == {P2(k) : k \in ROUND} \cup {sa, Half(sa), Add(sa, sa), Zero, N(3), N(12), Add(sa, N(1))}
VAs(mva) == {P2(k) : k \in {0, 1, 3}} \cup {mva, Half(mva), Add(mva, mva), Zero, N(3), Sub(mva, N(1))}
Maxs(s) == {Zero, N(1), s.va, s.mva, Add(s.mva, s.va), Add(s.mva, s.mva), Add(s.mva, Add(s.mva, s.mva)),
            Add(P2(20), s.mva), Sub(P2(63), s.sa), Sub(P2(63), s.mva), Sub(Sub(P2(63), s.sa), s.mva),
            Sub(Sub(P2(63), s.sa), s.va), P2(32), P2(62), P2(63), Sub(Zero, s.mva), Sub(Zero, N(1)), IMAX}

Init == phase = "sa" /\ c = [sa |-> Zero, mva |-> Zero, va |-> Zero, max |-> Zero] /\ cap = Zero
(* Combinations that break more than one rule say nothing more: left out as  *)
(* soon as they do                                                           *)
Few(b) == Cardinality(b) <= 1
Choose ==
  /\ cap' = cap
  /\ \/ /\ phase = "sa" /\ phase' = "mva"
        /\ \E x \in SAs : c' = [c EXCEPT !.sa = x]
     \/ /\ phase = "mva" /\ phase' = "va"
        /\ \E x \in MVAs(c.sa) : c' = [c EXCEPT !.mva = x]
        /\ Few(Broken(c') \cap {"sa", "mva", "mva above sa"})
     \/ /\ phase = "va" /\ phase' = "max"
        /\ \E x \in VAs(c.mva) : c' = [c EXCEPT !.va = x]
        /\ Few(Broken(c') \cap {"sa", "mva", "mva above sa", "va", "va above mva"})
     \/ /\ phase = "max" /\ phase' = "build"
        /\ \E x \in Maxs(c) : c' = [c EXCEPT !.max = x]
        /\ Few(Broken(c'))
(* What the implementation asserts *)
Asserted(s) == Broken(s) \ {MUTANT} = {}
Build == /\ phase = "build"
         /\ phase' = IF Asserted(c) THEN "built" ELSE "rejected"
         /\ UNCHANGED <<c, cap>>
Requests == {N(1), c.va, c.mva, Add(c.mva, c.va), Half(c.max), Add(Half(c.max), N(1)), Sub(c.max, N(1)), c.max,
             P2(32), Add(P2(32), N(1)), Sub(c.max, c.va), Half(NextP2(c.max)), Add(Half(NextP2(c.max)), c.va)}
Use == /\ phase = "built"
       /\ \E r \in Requests : r # Zero /\ Leq(r, c.max) /\ ~Leq(r, cap) /\ cap' = Grown(c, r)
       /\ UNCHANGED <<phase, c>>
Next == Choose \/ Build \/ Use
Spec == Init /\ [][Next]_vars

Sound == phase = "built" => Valid(c)
Total == phase = "rejected" => ~Valid(c)
Capable ==
  phase = "built" =>
    /\ cap = Zero \/ Proper(c, cap, N(1))
    /\ \A r \in Requests : r # Zero /\ Leq(r, c.max) => Proper(c, Grown(c, r), r)

Names(b) == IF b = {} THEN "" ELSE CHOOSE x \in b : TRUE
(* alignments of types on both sides of the border; compilers take up to 2^29 *)
Types(s) == {a \in {N(1), Half(s.mva), s.mva, Add(s.mva, s.mva), s.sa, Add(s.sa, s.sa), P2(29)} : IsP2(a) /\ Leq(a, P2(29))}
Emit ==
  IF "GEN" \in DOMAIN IOEnv
  THEN phase' # phase /\ phase' \in {"built", "rejected"} =>
         PrintT("T" \o ToJson([c |-> c, rule |-> Names(Broken(c)),
                               als |-> SetToSeq({a \in Types(c) : Storable(c, a)}),
                               over |-> SetToSeq({a \in Types(c) : ~Storable(c, a)})]))
  ELSE TRUE
============================================================================
