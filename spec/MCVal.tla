------------------------------- MODULE MCVal -------------------------------
(***************************************************************************)
(* Serialization of whole values, step by step and as it is implemented:   *)
(* depth first, with a mapping from the input block being processed to its *)
(* copy, pointers written at their mapped place and recorded in groups by  *)
(* buffer address, capacities corrected, and the buffer moved by the       *)
(* environment whenever it grows.  In the end a reader has to get back     *)
(* what was serialized.                                                    *)
(*                                                                         *)
(* Values are the trees of module Value.  Memory consists of cells of 8    *)
(* bytes; a node of a tree takes four: tag, pointer, capacity, length.     *)
(***************************************************************************)
EXTENDS Value, TLC, Json, IOUtils

CONSTANTS KINDS,    \* of serializer
          VALS,     \* number of values in one output
          DEPTH,    \* of the trees
          WIDTH,    \* most children of a list
          LOCS,     \* places for the buffer
          RANDOM,   \* trees at random (for simulation) instead of all
          MUTANT    \* "none", or a deliberate error

VARIABLES kind,
          vals,     \* the values
          k,        \* the one that is being serialized
          todo,     \* stack of what is left to do of it, next one last
          b,        \* storage [pos, cap, loc]
          img,      \* cells written
          map,      \* position mapping [q, p]: input block, position
          grp, past,\* pointer groups [addr, ps]
          rets, phase, script
vars == <<kind, vals, k, todo, b, img, map, grp, past, rets, phase, script>>

T(kk, n, x, ch) == [k |-> kk, n |-> n, x |-> x, ch |-> ch]
Prims == {T("leaf", 1, 0, <<>>), T("quads", 1, 0, <<>>), T("quads", 1, 1, <<>>), T("none", 0, 0, <<>>)}
         \cup {T("bytes", n, x, <<>>) : n \in {0, 2}, x \in {0, 1}}
Seqs(S) == UNION { [1..n -> S] : n \in 0..WIDTH }
Over(S) == { T("list", 0, x, c) : c \in Seqs(S), x \in {0, 1} } \cup { T("box", 0, 0, <<c>>) : c \in S }
Thin(S) == { T("list", 0, x, <<c>>) : c \in S, x \in {0, 1} } \cup { T("box", 0, 0, <<c>>) : c \in S }
           \cup { T("pair", 0, 0, <<c, T("bytes", 2, 1, <<>>)>>) : c \in S }
D1 == Prims
D2 == D1 \cup Over(D1)
D3 == D2 \cup Thin(D2)
D4 == Thin(D3)
Trees == CASE DEPTH = 1 -> D1 [] DEPTH = 2 -> D2 [] DEPTH = 3 -> D3 [] OTHER -> D4

(* a tree at random, of depth d; parameter i keeps TLC from caching *)
RECURSIVE Rand(_, _)
Rand(d, i) ==
  LET n == RandomElement(0..3)
      x == RandomElement({0, 0, 1, 3, 9})
  IN IF d = 0 \/ RandomElement(1..5) = 1
     THEN CASE RandomElement(1..8) = 1 -> T("leaf", n, 0, <<>>)
            [] RandomElement(1..4) = 1 -> T("str", 3 * n, x, <<>>)
            [] RandomElement(1..3) = 1 -> T("halves", n, x, <<>>)
            [] RandomElement(1..3) = 1 -> T("quads", n, x, <<>>)
            [] RandomElement(1..3) = 1 -> T("big", n, 0, <<>>)
            [] RandomElement(1..3) = 1 -> T("units", n, 0, <<>>)
            [] OTHER -> T("bytes", 40 * n, x, <<>>)
     ELSE CASE RandomElement(1..5) = 1 -> T("box", 0, 0, <<Rand(d - 1, 2 * i)>>)
            [] RandomElement(1..5) = 1 -> T("some", 0, 0, <<Rand(d - 1, 2 * i)>>)
            [] RandomElement(1..5) = 1 -> T("pair", 0, 0, <<Rand(d - 1, 2 * i), Rand(d - 1, 2 * i + 1)>>)
            [] RandomElement(1..4) = 1 -> T("named", n, x, [j \in 1..RandomElement(0..2) |-> Rand(d - 1, 2 * i + j)])
            [] OTHER -> T("list", 0, x, [j \in 1..RandomElement(0..4) |-> Rand(d - 1, 3 * i + j)])

NODE == 4
Addr(l) == l * 100000
Lists == {"bytes", "quads", "list"}
Len_(t) == IF t.k = "list" THEN Len(t.ch) ELSE t.n

W(w, v, q) == [w |-> w, v |-> v, q |-> q]
Num(n) == W("num", n, <<>>)
(* Representation of node t at offset o of input block q *)
Rep(t, q, o) ==
  <<W(t.k, IF t.k = "leaf" THEN t.n ELSE 0, <<>>),
    IF t.k \in Lists THEN (IF Len_(t) + t.x = 0 THEN W("dangle", 0, <<>>) ELSE W("in", 0, Append(q, o)))
    ELSE IF t.k \in {"box", "pair"} THEN W("in", 0, Append(q, o)) ELSE Num(0),
    Num(IF t.k \in Lists THEN Len_(t) + t.x ELSE 0),
    Num(IF t.k \in Lists THEN Len_(t) ELSE 0)>>
Reps(ch, q) == FoldLeft(LAMBDA a, i : a \o Rep(ch[i], q, NODE * (i - 1)), <<>>, [i \in DOMAIN ch |-> i])
(* Cells of the block that t owns: contents and alignment *)
Block(t, q) ==
  CASE t.k = "bytes" -> <<[i \in 1..t.n |-> W("elt", i, q)], 1>>
    [] t.k = "quads" -> <<[i \in 1..(2 * t.n) |-> W("elt", i, q)], 2>>
    [] OTHER -> <<Reps(t.ch, q), 2>>

VA == 1
NoGroup == [addr |-> 0, ps |-> <<>>]
Dummy == [q |-> <<-1>>, p |-> 0]
Put(m, p, cells) == [i \in (DOMAIN m) \cup (p..(p + Len(cells) - 1)) |->
                       IF i >= p /\ i < p + Len(cells) THEN cells[i - p + 1] ELSE m[i]]

(* Where cell o of input block q is in the output, going by the mapping *)
PosFor(mp, q, o) == IF mp.q = q THEN mp.p + o ELSE -1000

Init ==
  /\ kind \in KINDS
  /\ vals \in IF RANDOM THEN {<<>>} ELSE [1..VALS -> Trees]
  /\ k = 1 /\ todo = <<>> /\ b = [pos |-> 0, cap |-> 0, loc |-> 0] /\ img = <<>> /\ map = Dummy
  /\ grp = NoGroup /\ past = <<>> /\ rets = <<>> /\ script = <<>>
  /\ phase = IF RANDOM THEN "pick" ELSE "value"

Pick ==
  /\ phase = "pick"
  /\ vals' = [i \in 1..VALS |-> Rand(DEPTH, i)]
  /\ phase' = "picked"
  /\ UNCHANGED <<kind, k, todo, b, img, map, grp, past, rets, script>>

(* The storage with `cells` pushed, wherever the environment puts it: a set *)
Pushed(cells, al) ==
  LET s == Place(VA, b.pos, al)
      e == s + Len(cells)
      cap == IF e <= b.cap THEN b.cap ELSE CHOOSE c \in {2, 4, 8, 16, 32, 64, 128, 256, 512} : c >= e /\ c < 2 * e
  IN { [s |-> s, b |-> [pos |-> e, cap |-> cap, loc |-> l], img |-> Put(img, s, cells), grew |-> e > b.cap]
       : l \in IF e <= b.cap THEN {b.loc} ELSE LOCS }

Complete == kind = "complete"
Writes == kind \in {"complete", "offset"}
(* cell at p now points to position t *)
Point(m, bb, p, t) == IF ~Writes \/ p < 0 THEN m
                      ELSE Put(m, p, <<IF Complete THEN W("abs", Addr(bb.loc) + t, <<>>) ELSE W("rel", t, <<>>)>>)
Record(bb, p) ==
  IF ~Complete THEN <<grp, past>>
  ELSE IF Addr(bb.loc) = grp.addr \/ MUTANT = "no_switch" THEN <<[grp EXCEPT !.ps = Append(@, p)], past>>
  ELSE IF grp.ps = <<>> THEN <<[addr |-> Addr(bb.loc), ps |-> <<p>>], past>>
  ELSE <<[addr |-> Addr(bb.loc), ps |-> <<p>>], IF MUTANT = "drop_past" THEN past ELSE Append(past, grp)>>

(* serialize_value: push the value, set the mapping, then its data *)
Value_ ==
  /\ phase = "value" /\ k <= Len(vals) /\ todo = <<>>
  /\ \E r \in Pushed(Rep(vals[k], <<k>>, 0), 2) :
       /\ b' = r.b /\ img' = r.img
       /\ script' = IF r.grew THEN Append(script, r.b.loc) ELSE script
       /\ map' = [q |-> <<k>>, p |-> r.s]
       /\ rets' = Append(rets, r.s)
       /\ todo' = <<[op |-> "node", t |-> vals[k], q |-> <<k>>, o |-> 0, m |-> Dummy]>>
  /\ phase' = "data"
  /\ UNCHANGED <<kind, vals, k, grp, past>>

Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Task(t, q, o) == [op |-> "node", t |-> t, q |-> q, o |-> o, m |-> Dummy]

Data ==
  /\ phase = "data" /\ todo # <<>>
  /\ \E t \in {Top} :
     CASE t.op = "restore" ->
            /\ todo' = Rest
            /\ map' = IF MUTANT = "no_restore" THEN map ELSE t.m
            /\ UNCHANGED <<b, img, grp, past, script>>
       [] t.t.k \in Lists /\ Len_(t.t) = 0 ->
            \* an empty list: capacity 0 and a dangling pointer
            /\ img' = IF Complete /\ t.t.x > 0 /\ MUTANT # "no_empty"
                      THEN Put(Put(img, PosFor(map, t.q, t.o + 2), <<Num(0)>>), PosFor(map, t.q, t.o + 1), <<W("dangle", 0, <<>>)>>)
                      ELSE img
            /\ todo' = Rest
            /\ UNCHANGED <<map, b, grp, past, script>>
       [] t.t.k \in Lists \cup {"box", "pair"} /\ Len_(t.t) + (IF t.t.k \in {"box", "pair"} THEN 1 ELSE 0) > 0 ->
            \E m1 \in {IF Complete /\ t.t.k \in Lists /\ t.t.x > 0 /\ MUTANT # "no_cap"
                       THEN Put(img, PosFor(map, t.q, t.o + 2), <<Num(Len_(t.t))>>) ELSE img} :
            \E nq \in {Append(t.q, t.o)} :
            \E blk \in {Block(t.t, nq)} :
            \E r \in Pushed(blk[1], blk[2]) :
            \E p \in {PosFor(map, t.q, t.o + 1)} :
            \E g \in {Record(r.b, p)} :
              /\ b' = r.b
              /\ script' = IF r.grew THEN Append(script, r.b.loc) ELSE script
              /\ img' = Point(Put(m1, r.s, blk[1]), r.b, p, r.s)
              /\ grp' = g[1] /\ past' = g[2]
              /\ IF t.t.ch = <<>>
                 THEN UNCHANGED map /\ todo' = Rest
                 ELSE /\ map' = [q |-> nq, p |-> r.s]
                      /\ todo' = Rest
                           \o <<[op |-> "restore", t |-> t.t, q |-> nq, o |-> 0, m |-> map]>>
                           \o [i \in DOMAIN t.t.ch |->
                                 LET j == Len(t.t.ch) + 1 - i IN
                                 Task(t.t.ch[j], nq, NODE * (j - 1))]
       [] OTHER -> todo' = Rest /\ UNCHANGED <<map, b, img, grp, past, script>>
  /\ UNCHANGED <<kind, vals, k, rets, phase>>

Next_ ==
  /\ phase = "data" /\ todo = <<>>
  /\ phase' = "value" /\ k' = k + 1
  /\ UNCHANGED <<kind, vals, todo, b, img, map, grp, past, rets, script>>

(* All pointers recorded at another address than the final one are shifted *)
Correct(m, g) ==
  IF g.addr = Addr(b.loc) THEN m
  ELSE FoldLeft(LAMBDA a, p : IF p \in DOMAIN a
                              THEN [a EXCEPT ![p] = W("abs", a[p].v + Addr(b.loc) - g.addr, <<>>)] ELSE a, m, g.ps)
Finalize ==
  /\ phase = "value" /\ k > Len(vals)
  /\ img' = IF Complete THEN FoldLeft(Correct, IF MUTANT = "skip_current" THEN img ELSE Correct(img, grp), past) ELSE img
  /\ phase' = "done"
  /\ UNCHANGED <<kind, vals, k, todo, b, map, grp, past, rets, script>>

Stop == phase = "done" /\ UNCHANGED vars
Next == Pick \/ Value_ \/ Data \/ Next_ \/ Finalize
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The reader.  Bad stands for anything it cannot make sense of.            *)
Bad == T("bad", 0, 0, <<>>)
Cell(p) == IF p \in DOMAIN img THEN img[p] ELSE W("none", 0, <<>>)
Target(w) == CASE kind = "complete" -> (IF w.w = "abs" THEN w.v - Addr(b.loc) ELSE -1)
               [] kind = "offset" -> (IF w.w = "rel" THEN w.v ELSE -1)
               [] OTHER -> -1

(* Contents of a list of plain elements, whose input block was q *)
PlainOK(p, n, q) == \A i \in 1..n : Cell(p + i - 1) = W("elt", i, q)

RECURSIVE ReadAt(_, _, _)
ReadAt(p, q, o) ==
  LET tag == Cell(p).w
      n == Cell(p + 3).v
      x == Cell(p + 2).v - n
      t == Target(Cell(p + 1))
      nq == Append(q, o)
      many == [i \in 1..n |-> ReadAt(t + NODE * (i - 1), nq, NODE * (i - 1))]
  IN CASE tag = "leaf" -> T("leaf", Cell(p).v, 0, <<>>)
       [] tag = "none" /\ p \in DOMAIN img -> T("none", 0, 0, <<>>)
       [] tag = "bytes" -> IF n > 0 /\ ~PlainOK(t, n, nq) THEN Bad ELSE T("bytes", n, x, <<>>)
       [] tag = "quads" -> IF n > 0 /\ (~PlainOK(t, 2 * n, nq) \/ t % 2 # 0) THEN Bad ELSE T("quads", n, x, <<>>)
       [] tag = "list" -> IF n > 0 /\ t % 2 # 0 THEN Bad ELSE T("list", 0, x, IF n = 0 THEN <<>> ELSE many)
       [] tag = "box" -> T("box", 0, 0, <<ReadAt(t, nq, 0)>>)
       [] tag = "pair" -> T("pair", 0, 0, <<ReadAt(t, nq, 0), ReadAt(t + NODE, nq, NODE)>>)
       [] OTHER -> Bad

(* Walks the output in order: the tree at p, whose data begins at s, and     *)
(* where the data after it begins                                           *)
RECURSIVE Walk(_, _, _, _), WalkAll(_, _, _, _, _)
WalkAll(p, q, i, n, s) ==
  IF i > n THEN <<<<>>, s>>
  ELSE LET a == Walk(p + NODE * (i - 1), q, NODE * (i - 1), s)
           r == WalkAll(p, q, i + 1, n, a[2])
       IN <<<<a[1]>> \o r[1], r[2]>>
Walk(p, q, o, s) ==
  LET tag == Cell(p).w
      n == Cell(p + 3).v
      x == Cell(p + 2).v - n
      nq == Append(q, o)
      s2 == Place(VA, s, 2)
      same == Cell(p + 1) = W("in", 0, nq)
  IN CASE tag = "leaf" -> <<T("leaf", Cell(p).v, 0, <<>>), s>>
       [] tag = "none" /\ p \in DOMAIN img -> <<T("none", 0, 0, <<>>), s>>
       [] tag = "bytes" -> IF n = 0 THEN <<T("bytes", 0, x, <<>>), s>>
                           ELSE <<IF same /\ PlainOK(s, n, nq) THEN T("bytes", n, x, <<>>) ELSE Bad, s + n>>
       [] tag = "quads" -> IF n = 0 THEN <<T("quads", 0, x, <<>>), s>>
                           ELSE <<IF same /\ PlainOK(s2, 2 * n, nq) THEN T("quads", n, x, <<>>) ELSE Bad, s2 + 2 * n>>
       [] tag \in {"list", "box", "pair"} ->
            LET c == CASE tag = "list" -> n [] tag = "box" -> 1 [] OTHER -> 2
                r == WalkAll(s2, nq, 1, c, s2 + NODE * c)
            IN IF tag = "list" /\ n = 0 THEN <<T("list", 0, x, <<>>), s>>
               ELSE <<IF same THEN T(tag, 0, IF tag = "list" THEN x ELSE 0, r[1]) ELSE Bad, r[2]>>
       [] OTHER -> <<Bad, s>>

RECURSIVE Norm(_)
Norm(t) == [t EXCEPT !.x = IF kind = "complete" THEN 0 ELSE t.x, !.ch = [i \in DOMAIN t.ch |-> Norm(t.ch[i])]]

ReadBack ==
  phase = "done" =>
    \A i \in DOMAIN vals :
      /\ i \in DOMAIN rets
      /\ IF Writes THEN ReadAt(rets[i], <<i>>, 0) = Norm(vals[i])
         ELSE LET r == Walk(rets[i], <<i>>, 0, rets[i] + NODE) IN
              /\ r[1] = vals[i]
              /\ IF i < Len(vals) THEN Place(VA, r[2], 2) = rets[i + 1] ELSE r[2] = b.pos

(* The same place for everything, whatever the kind and wherever the buffer went *)
SameLayout ==
  phase = "done" =>
    \A i \in DOMAIN vals :
      LET own(t) == LET RECURSIVE own_(_)
                        own_(u) == CASE u.k = "bytes" -> IF u.n = 0 THEN <<>> ELSE <<<<1, 1, u.n>>>>
                                     [] u.k = "quads" -> IF u.n = 0 THEN <<>> ELSE <<<<2, 2, u.n>>>>
                                     [] u.k \in {"list", "box", "pair"} ->
                                          IF u.ch = <<>> THEN <<>>
                                          ELSE <<<<4, 2, Len(u.ch)>>>> \o FoldLeft(LAMBDA a, c : a \o own_(c), <<>>, u.ch)
                                     [] OTHER -> <<>>
                    IN own_(t)
          L == LayOut(VA, 100000, rets[i], <<<<4, 2, 1>>>> \o own(vals[i]))
      IN L.at[1] = rets[i] /\ (IF i < Len(vals) THEN Place(VA, L.pos, 2) = rets[i + 1] ELSE L.pos = b.pos)

(* One test per finished behaviour, or per random pick *)
Emit ==
  IF "GEN" \in DOMAIN IOEnv
  THEN (phase' \in {"done", "picked"} => PrintT("T" \o ToJson([vals |-> vals', script |-> script', kinds |-> kind])))
  ELSE TRUE
============================================================================
