------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* The storage as it is implemented (align for the type, reserve with the  *)
(* code's growth rule, write into the buffer, align after; buffer memory   *)
(* byte by byte; reallocation to any place the environment likes), checked *)
(* exhaustively against the properties of module Store for small           *)
(* configurations.  Also generates, with MODE = "gen", one test per        *)
(* transition: the operations on a shortest path to a state, and then each *)
(* operation possible there.                                               *)
(***************************************************************************)
EXTENDS Store, TLC, Json, IOUtils

CONSTANTS CIDS,      \* configurations explored
          NMAX,      \* longest slice
          RUNSMAX,   \* bound on stored fragments
          LOCS,      \* places for the buffer
          MUTANT     \* "none", or a deliberate error (to see that it is found)

(* The harness's configurations with a small maximum capacity, by number *)
Config(i) ==
  CASE i = 1  -> [sa |-> 16,  mva |-> 16, va |-> 16, max |-> 1024]
    [] i = 2  -> [sa |-> 16,  mva |-> 8,  va |-> 8,  max |-> 40]
    [] i = 4  -> [sa |-> 32,  mva |-> 32, va |-> 1,  max |-> 96]
    [] i = 9  -> [sa |-> 2,   mva |-> 2,  va |-> 2,  max |-> 6]
    [] i = 10 -> [sa |-> 16,  mva |-> 16, va |-> 1,  max |-> 48]
    [] i = 11 -> [sa |-> 64,  mva |-> 64, va |-> 64, max |-> 320]
    [] i = 13 -> [sa |-> 256, mva |-> 32, va |-> 8,  max |-> 992]
    [] i = 16 -> [sa |-> 8,   mva |-> 8,  va |-> 4,  max |-> 24]
    [] i = 17 -> [sa |-> 32,  mva |-> 16, va |-> 4,  max |-> 80]
    [] i = 18 -> [sa |-> 16,  mva |-> 16, va |-> 16, max |-> 64]
    [] i = 19 -> [sa |-> 16,  mva |-> 8,  va |-> 2,  max |-> 64]
    [] i = 23 -> [sa |-> 8,   mva |-> 8,  va |-> 4,  max |-> 72]   \* of the user's own
    [] i = 21 -> [sa |-> 64,  mva |-> 32, va |-> 1,  max |-> 960]

(* The harness's types by number: <<size, alignment>> *)
Types == << <<1, 1>>, <<2, 2>>, <<4, 4>>, <<8, 8>>, <<3, 1>>, <<6, 2>>, <<12, 4>>, <<24, 8>>,
            <<16, 16>>, <<48, 16>>, <<32, 32>>, <<64, 64>>, <<128, 128>>, <<0, 1>>, <<0, 8>>,
            <<17, 1>>, <<100, 1>>, <<0, 16>>, <<0, 64>>, <<4096, 1>>, <<512, 8>>, <<56, 8>> >>
Sz(ty) == Types[ty + 1][1]
Al(ty) == Types[ty + 1][2]
CONSTANT TYS   \* type numbers used

VARIABLES cid, st, mem, good, hist
(* cid  configuration;  st  abstract state as in Store;                     *)
(* mem  bytes of the buffer: position -> <<token, offset>>;                 *)
(* good the last step satisfied every property;                             *)
(* hist operations so far (not part of the view)                            *)
vars == <<cid, st, mem, good, hist>>

C == Config(cid) @@ [page |-> CASE cid = 23 -> 24 [] cid = 21 -> 96 [] OTHER -> 0]
Junk == <<0, 0>>
NoMem == [i \in {} |-> Junk]

---------------------------------------------------------------------------
(* Implementation steps, on h = [cap, pos, loc, mem, ok, oob]               *)

H0 == [cap |-> st.cap, pos |-> st.pos, loc |-> st.loc, mem |-> mem, ok |-> TRUE, oob |-> FALSE]

DoAlign(h, a) == IF ~h.ok THEN h ELSE [h EXCEPT !.pos = AlignUp(h.pos, a)]
DoAlignFor(h, al) == IF al > C.va THEN DoAlign(h, al) ELSE h
DoAlignAfter(h, sz) ==
  IF MUTANT = "no_align_after" THEN h
  ELSE IF sz % C.va > 0 THEN DoAlign(h, C.va) ELSE h

(* Growth as in AlignedVec::grow_for_reserve.  0 means it panics *)
GrowTo(h, need) ==
  IF need > NextPow2(C.max) \div 2
  THEN IF need <= C.max THEN C.max ELSE 0
  ELSE IF MUTANT = "no_min_cap" \/ h.cap # 0 THEN NextPow2(need) ELSE Max2(NextPow2(need), C.mva)

Resized(h, newcap, l) ==
  [h EXCEPT !.cap = newcap, !.loc = l,
            !.mem = [i \in 0..(newcap - 1) |->
                       IF i < Min2(h.cap, newcap) /\ ~(MUTANT = "lose_on_move" /\ l # h.loc /\ h.loc # 0)
                       THEN h.mem[i] ELSE Junk]]
(* (pages: as in hop.rs of the harness) *)
HopBy(h, add) == IF C.page = 0 \/ add = 0 \/ h.pos % C.page = 0 \/ add <= C.page - (h.pos % C.page) THEN 0
                 ELSE C.page - (h.pos % C.page)
DoReserve(h, add, l) ==
  IF ~h.ok THEN h
  ELSE LET hop == HopBy(h, add) IN
       IF add + hop <= h.cap - h.pos THEN [h EXCEPT !.pos = h.pos + hop]
       ELSE LET g == TLCEval(GrowTo(h, h.pos + hop + add)) IN
            IF g = 0 THEN [h EXCEPT !.ok = FALSE] ELSE Resized([h EXCEPT !.pos = h.pos + hop], g, l)

DoWrite(h, p, n, tok) ==
  IF ~h.ok \/ n = 0 THEN h
  ELSE IF p + n > h.cap THEN [h EXCEPT !.oob = TRUE]
  ELSE [h EXCEPT !.mem = [i \in DOMAIN h.mem |-> IF i >= p /\ i < p + n THEN <<tok, i - p>> ELSE h.mem[i]]]
DoAdvance(h, n) == IF ~h.ok THEN h ELSE [h EXCEPT !.pos = h.pos + n]

DoPush(h, sz, al, add, tok, l) ==
  LET h1 == TLCEval(DoAlignFor(h, al))
      h2 == TLCEval(DoReserve(h1, add, l))
      h3 == TLCEval(DoAdvance(DoWrite(h2, h2.pos, add, tok), add))
  IN [h |-> DoAlignAfter(h3, sz), ret |-> IF MUTANT = "pos_before_reserve" THEN h1.pos ELSE h2.pos]
DoGap(h, sz, al, add, l) ==
  LET h1 == TLCEval(DoAlignFor(h, al))
      h2 == TLCEval(DoReserve(h1, add, l))
  IN [h |-> IF ~h2.ok THEN h2 ELSE [h2 EXCEPT !.pos = AlignUp(h2.pos + add, C.va)], ret |-> h2.pos]
DoShrink(h, l) ==
  LET nc == AlignUp(h.pos, IF MUTANT = "shrink_va" THEN C.va ELSE C.mva) IN
  IF nc = h.cap THEN h
  ELSE IF nc = 0 THEN [h EXCEPT !.cap = 0, !.loc = 0, !.mem = NoMem]
  ELSE Resized(h, nc, l)

R(h) == [h |-> h, ret |-> 0]
(* What the implementation does for operation e, moving to l if it has to *)
Impl(e, l) ==
  CASE e.op \in {"push", "pushs"} -> IF e.sz = 0 THEN R(H0) ELSE DoPush(H0, e.sz, e.al, e.add, e.tok, l)
    [] e.op = "bytes" -> DoPush(H0, 1, 1, e.add, e.tok, l)
    [] e.op \in GapOps -> DoGap(H0, e.sz, e.al, e.add, l)
    [] e.op = "unchecked" ->
         LET h2 == TLCEval(DoReserve(DoAlignFor(H0, e.al), e.add, l)) IN
         [h |-> DoAdvance(DoWrite(h2, h2.pos, e.add, e.tok), e.add), ret |-> h2.pos]
    [] e.op = "reserve" -> R(DoReserve(H0, e.add, l))
    [] e.op = "alignfor" -> R(DoAlignFor(H0, e.al))
    [] e.op = "alignany" -> R(DoAlign(H0, C.va))
    [] e.op \in WriteOps -> [h |-> DoWrite(H0, e.p, e.sz * e.n, e.tok), ret |-> e.p]
    [] e.op = "clear" -> R([H0 EXCEPT !.pos = 0])
    [] e.op = "shrink" -> R(DoShrink(H0, l))
    [] e.op = "new" -> R([H0 EXCEPT !.cap = 0, !.pos = 0, !.loc = 0, !.mem = NoMem])
    [] e.op = "withcap" ->
         LET z == [H0 EXCEPT !.cap = 0, !.pos = 0, !.loc = 0, !.mem = NoMem] IN
         IF e.add = 0 THEN R(z)
         ELSE IF e.add > C.max THEN R([z EXCEPT !.ok = FALSE])
         ELSE R(Resized(z, AlignUp(e.add, C.mva), l))

---------------------------------------------------------------------------
Ty(o, ty, n) == [op |-> o, ty |-> ty, sz |-> Sz(ty), al |-> Al(ty), n |-> n, p |-> 0,
                 add |-> Sz(ty) * n]
Nm(o, n, add) == [op |-> o, ty |-> 0, sz |-> 1, al |-> 1, n |-> n, p |-> 0, add |-> add]

MyTypes == { ty \in TYS : Al(ty) <= C.mva }
Amounts == { x \in {0, 1, C.va, C.mva, st.cap - st.pos, st.cap - st.pos + 1,
                    C.max - st.pos, C.max - st.pos + 1} : x <= C.max + 1 }

Ops ==
  IF ~st.live THEN {Nm("new", 0, 0)} \cup { Nm("withcap", n, n) : n \in {0, 1, C.mva + 1, C.max, C.max + 1} }
  ELSE IF st.raw THEN {Nm("alignany", 0, 0), Nm("clear", 0, 0)}
  ELSE { Ty("push", ty, 1) : ty \in MyTypes }
       \cup { Ty("pushs", ty, n) : ty \in MyTypes, n \in 0..NMAX }
       \cup { Ty("empty", ty, 1) : ty \in MyTypes }
       \cup { Ty("emptys", ty, n) : ty \in MyTypes, n \in 0..NMAX }
       \cup { Nm("bytes", n, n) : n \in Amounts }
       \cup { Ty("unchecked", ty, 1) : ty \in { y \in MyTypes : Sz(y) > 0 } }
       \cup { Nm("reserve", 0, n) : n \in Amounts }
       \cup { [Ty("alignfor", ty, 1) EXCEPT !.add = 0] : ty \in MyTypes }
       \cup { Nm("clear", 0, 0), Nm("shrink", 0, 0) }
       \cup { [Ty("write", ty, 1) EXCEPT !.p = q, !.add = 0] :
                <<ty, q>> \in { z \in MyTypes \X {0, Al(1), C.va, C.mva} :
                                 Sz(z[1]) > 0 /\ z[2] % Al(z[1]) = 0 /\ z[2] + Sz(z[1]) <= st.pos } }

NextTok == 1 + Cardinality({ r[3] : r \in st.runs })
FreshTok == CHOOSE k \in 1..(NextTok + 1) : k \notin { r[3] : r \in st.runs }

Good(r, m) == \A i \in 0..(r[2] - 1) : (r[1] + i) \in DOMAIN m /\ m[r[1] + i] = <<r[3], r[4] + i>>

Log(o, refuse) == [op |-> o.op, ty |-> o.ty, n |-> IF o.op = "reserve" THEN o.add ELSE o.n, p |-> o.p, refuse |-> refuse]

(* One operation, the allocator choosing place l if memory is (re)allocated *)
(* (values are bound by \E over singletons so that TLC computes them once) *)
Step(o) ==
  \E e0 \in {o @@ [tok |-> FreshTok]} :
  \E x \in {Expect(C, st, e0)} :
  \E again \in {Impl(e0, st.loc).h.cap # st.cap \/ o.op \in MakeOps} :
  \E l \in IF again THEN LOCS ELSE {st.loc} :
  \E r \in {Impl(e0, l)} :
  \E e1 \in {e0 @@ [ok |-> r.h.ok, ret |-> IF r.h.ok THEN r.ret ELSE 0, er |-> IF r.h.oob THEN 4 ELSE 0]} :
  \E e \in {e1 @@ [rb |-> ~e1.ok \/ ~(e1.op \in FillOps \cup WriteOps)
                           \/ Good(<<r.ret, o.sz * o.n, e0.tok, 0>>, r.h.mem),
                    bad |-> IF \A q \in RunsAfter(st, e1, x) : Good(q, r.h.mem) THEN <<>> ELSE <<1>>,
                    full |-> FALSE, mem |-> <<>>]} :
  \E obs \in {[cap |-> r.h.cap, pos |-> r.h.pos, loc |-> r.h.loc, am |-> r.h.loc * C.sa, live |-> TRUE,
                blk |-> [n |-> IF r.h.cap > 0 THEN 1 ELSE 0, size |-> r.h.cap, align |-> C.sa]]} :
  \E t \in {After(C, st, e, x, obs)} :
     /\ st' = t
     /\ mem' = r.h.mem
     /\ good' = StepOK("ALL", C, st, e, t, x)
     /\ hist' = Append(hist, Log(o, 0))
     /\ UNCHANGED cid

(* One operation that needs memory, which the allocator refuses *)
Refused(o) ==
  \E e0 \in {o @@ [tok |-> FreshTok]} :
  \E x \in {Expect(C, st, e0)} :
  \E h \in {Impl(e0, 1).h} :
     /\ h.ok /\ h.cap > 0 /\ (h.cap # st.cap \/ o.op = "withcap")
     /\ IF MUTANT = "refusal_ignored"
        THEN \E e \in {e0 @@ [ok |-> TRUE, ret |-> 0, er |-> 0, rb |-> TRUE, bad |-> <<>>, full |-> FALSE, mem |-> <<>>]} :
             \E t \in {After(C, st, e, x, [cap |-> h.cap, pos |-> h.pos, loc |-> h.loc, am |-> 0, live |-> TRUE,
                                          blk |-> [n |-> 0, size |-> 0, align |-> 0]])} :
                st' = t /\ good' = StepOK("ALL", C, st, e, t, x)
        ELSE /\ st' = NoStore
             /\ good' = RefusedOK("ALL", C, [rs |-> h.cap, ra |-> C.sa, hs |-> h.cap, ha |-> C.sa, stopped |-> TRUE, er |-> 0], x)
     /\ mem' = NoMem
     /\ hist' = Append(hist, Log(o, 1))
     /\ UNCHANGED cid

Init == /\ cid \in CIDS
        /\ st = NoStore
        /\ mem = NoMem
        /\ good = TRUE
        /\ hist = <<>>
Next == \E o \in Ops : Step(o) \/ Refused(o)
Spec == Init /\ [][Next]_vars

(* Every step of the implementation-shaped machine satisfies every property *)
AllProps == good

(* The code's growth rule is the documented one, for every configuration    *)
(* with maximum capacity up to 72 and every amount needed                   *)
GrowthRule ==
  \A mva \in {1, 2, 4, 8, 16, 32} : \A k \in 1..(72 \div mva) :
    LET max == k * mva IN
    \A need \in 1..(max + 1) : \A cap \in {0, mva} :
      LET c == [max |-> max, mva |-> mva]
          code == IF need > NextPow2(max) \div 2 THEN IF need <= max THEN max ELSE 0
                  ELSE IF cap # 0 THEN NextPow2(need) ELSE Max2(NextPow2(need), mva)
      IN need > cap => IF need > max THEN code = 0 ELSE code = Grown(c, need)
ASSUME MUTANT # "none" \/ "GEN" \in DOMAIN IOEnv \/ GrowthRule

Bounded == Cardinality(st.runs) <= RUNSMAX
(* Memory outside the stored bytes has no influence *)
View == <<cid, st, good>>

---------------------------------------------------------------------------
(* Test generation: a transition is (state seen with less detail, operation) *)
GenView == <<cid, st.cap, st.pos, st.raw, st.live, st.failed, st.reused, st.loc,
             Cardinality(st.runs)>>
Emit == PrintT("T" \o ToJson([cid |-> cid, ops |-> hist']))
============================================================================
