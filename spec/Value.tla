------------------------------- MODULE Value -------------------------------
(***************************************************************************)
(* What serializing a value has to produce.                                *)
(*                                                                         *)
(* A value owns allocations ("blocks"), listed depth first in the order    *)
(* in which its fields and elements declare them; block 1 is the value     *)
(* itself:                                                                 *)
(*   blks    <<size of element, alignment, number of elements>>            *)
(* and has pointers to them ("heads") within blocks                        *)
(*   heads   <<block, is it a list?, element size, element alignment,      *)
(*             length, capacity, block pointed to (0: none), offsets of    *)
(*             pointer, length, capacity within the block,                 *)
(*             what the output has there: position pointed to (-1: none),  *)
(*             is the pointer non-null and aligned?, length, capacity,     *)
(*             is the pointer what it is in the input?>>                   *)
(* Then: at, where the copy of each block was found; diff, the 8-byte      *)
(* words <<block, offset>> in which the copy is not as the input; inb,     *)
(* whether addresses are aligned; eq, whether a reader got an equal value. *)
(***************************************************************************)
EXTENDS Arith, SequencesExt

Place(va, p, al) == IF al > va THEN AlignUp(p, al) ELSE p

(* Blocks are put one after another, each aligned for its type and no more  *)
LayOut(va, max, pos0, blks) ==
  FoldLeft(LAMBDA a, b :
             IF b[1] * b[3] = 0 THEN [a EXCEPT !.at = Append(a.at, -1)]
             ELSE LET s == Place(va, a.pos, b[2])
                  IN [at |-> Append(a.at, s), pos |-> AlignUp(s + b[1] * b[3], va),
                      fits |-> a.fits /\ s + b[1] * b[3] <= max],
           [at |-> <<>>, pos |-> pos0, fits |-> TRUE], blks)

LayoutOK(e, L) ==
  /\ Len(e.at) = Len(L.at)
  /\ \A i \in DOMAIN L.at : L.at[i] = -1 \/ e.at[i] = L.at[i]
  /\ e.pos1 = L.pos
  /\ L.at[1] = -1 \/ e.ret = L.at[1]

Writer(e) == e.kind \in {"offset", "complete"}
(* Pointers to something lead to its copy, others are left as they are *)
PtrsOK(e) ==
  \A i \in DOMAIN e.heads : \E h \in {e.heads[i]} :
    IF h[7] = 0 \/ ~Writer(e)
    THEN h[15] = 1 \/ (e.kind = "complete" /\ h[2] = 1 /\ h[3] > 0 /\ h[5] = 0 /\ h[6] # 0)
    ELSE h[11] >= 0 /\ h[11] = e.at[h[7]]
(* everything found, at aligned addresses within the output, nothing twice *)
Apart(e, i, j) ==
  \/ e.at[i] + e.blks[i][1] * e.blks[i][3] <= e.at[j]
  \/ e.at[j] + e.blks[j][1] * e.blks[j][3] <= e.at[i]
(* (which is plain if they follow each other) *)
InOrder(e) == \A i \in 2..Len(e.at) : e.blks[i - 1][1] = 0 \/ e.at[i - 1] + e.blks[i - 1][1] * e.blks[i - 1][3] <= e.at[i]
FoundOK(e) ==
  /\ e.inb
  /\ \A i \in DOMAIN e.at : e.blks[i][1] = 0 \/ (e.at[i] >= 0 /\ e.at[i] + e.blks[i][1] * e.blks[i][3] <= e.pos1)
  /\ IF InOrder(e) THEN TRUE
     ELSE \A i, j \in DOMAIN e.at : i < j /\ e.blks[i][1] > 0 => Apart(e, i, j)

(* Lists of things that have a size, in complete output: what they own is   *)
(* all they have                                                            *)
CapsOK(e) ==
  \A i \in DOMAIN e.heads : \E h \in {e.heads[i]} :
    h[2] = 1 =>
      /\ h[13] = h[5]
      /\ IF e.kind = "complete" /\ h[3] > 0
         THEN h[14] = h[5] /\ (h[5] = 0 => h[12] = 1)
         ELSE h[14] = h[6] /\ (h[7] = 0 => h[15] = 1)

(* The words that may differ from the input's: pointers; capacities (and     *)
(* dangling pointers with them) of lists whose spare capacity is dropped     *)
Dropped(e) == IF e.kind # "complete" THEN {}
              ELSE {i \in DOMAIN e.heads : e.heads[i][2] = 1 /\ e.heads[i][3] > 0 /\ e.heads[i][6] # e.heads[i][5]}
MayDiffer1(e) == IF ~Writer(e) THEN {}
                 ELSE {<<e.heads[i][1], e.heads[i][8]>> : i \in {j \in DOMAIN e.heads : e.heads[j][7] > 0}}
MayDiffer2(e) == {<<e.heads[i][1], e.heads[i][10]>> : i \in Dropped(e)}
MayDiffer3(e) == {<<e.heads[i][1], e.heads[i][8]>> : i \in {j \in Dropped(e) : e.heads[j][5] = 0}}
(* (the cardinalities only make TLC sort the sets, so that it looks things up quickly) *)
BytesOK(e) ==
  \E m1 \in {MayDiffer1(e)} : \E m2 \in {MayDiffer2(e)} : \E m3 \in {MayDiffer3(e)} :
    /\ Cardinality(m1) + Cardinality(m2) + Cardinality(m3) >= 0
    /\ \A i \in DOMAIN e.diff : e.diff[i] \in m1 \/ e.diff[i] \in m2 \/ e.diff[i] \in m3

---------------------------------------------------------------------------
(* Values of the universal type U of the harness, as trees                  *)
(*   [k: kind, n: length or tag, x: spare capacity, ch: children]           *)
(* m: [usz, ual: size and alignment of a U, qal: alignment of a u128]       *)
ElemOf(k, m) == CASE k \in {"str", "bytes"} -> <<1, 1>> [] k = "halves" -> <<2, 2>>
                  [] k = "quads" -> <<16, m.qal>> [] k = "big" -> <<8, 8>>

RECURSIVE Owned(_, _)
Each(ch, m) == FoldLeft(LAMBDA a, c : a \o Owned(c, m), <<>>, ch)
Owned(t, m) ==
  CASE t.k \in {"str", "bytes", "halves", "quads", "big"} ->
         IF t.n = 0 THEN <<>> ELSE \* one block of t.n elements
         LET el == ElemOf(t.k, m) IN <<<<el[1], el[2], t.n>>>>
    [] t.k = "list" -> IF t.ch = <<>> THEN <<>> ELSE <<<<m.usz, m.ual, Len(t.ch)>>>> \o Each(t.ch, m)
    [] t.k \in {"box", "some"} -> <<<<m.usz, m.ual, 1>>>> \o Each(t.ch, m)
    [] t.k = "pair" -> <<<<2 * m.usz, m.ual, 1>>>> \o Each(t.ch, m)
    [] t.k = "named" -> (IF t.ch = <<>> THEN <<>> ELSE <<<<m.usz, m.ual, Len(t.ch)>>>> \o Each(t.ch, m))
                        \o (IF t.n = 0 THEN <<>> ELSE <<<<1, 1, t.n>>>>)
    [] OTHER -> <<>>
Blocks(t, m) == <<<<m.usz, m.ual, 1>>>> \o Owned(t, m)
BlocksOK(e) == "tree" \in DOMAIN e => e.blks = Blocks(e.tree, e.sizes)
============================================================================
