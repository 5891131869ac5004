------------------------------- MODULE MCSer -------------------------------
(***************************************************************************)
(* Serializers as they are implemented: the mapping from input addresses   *)
(* to output positions, saved and restored around nested processing;       *)
(* pointer words written as absolute addresses of the moment; pointers     *)
(* recorded in groups by buffer address and corrected at the end.  The     *)
(* environment chooses where the buffer goes at every growth, and what     *)
(* user-written serialization does.  Every step is checked against the     *)
(* contract of module Ser.                                                 *)
(*                                                                         *)
(* Also generates one test per transition: a program and the places the    *)
(* buffer goes to, for the harness to run with the real serializers.       *)
(*                                                                         *)
(* Memory is modelled in cells of 8 bytes; everything pushed here has a    *)
(* size that is a multiple of that.                                        *)
(***************************************************************************)
EXTENDS Ser, TLC, Json, IOUtils

CONSTANTS CFG,      \* configuration of the harness: 0, 2, 3 or 4
          KINDS,    \* numbers of serializer kinds (harness/src/prog.rs)
          PMAX,     \* bound on the position
          DEPTH,    \* bound on nesting
          LEVELS,   \* bound on the number of steps
          SESSIONS, \* bound on the number of sessions
          LOCS,     \* places for the buffer
          FEATURES, \* operations explored
          MUTANT    \* "none", or a deliberate error (to see that it is found)

VARIABLES z,     \* state of the contract
          h,     \* [cap, pos, loc] of the real storage
          m,     \* cells: position -> <<token, offset>> or <<-1, address>>
          map,   \* position mapping [a, p]
          stk    \* what nested processing keeps on the stack: [map, a, used]
VARIABLES grp,   \* current pointer group [addr, ps]
          past,  \* sequence of pointer groups
          panic, \* a panic is going up the stack
          ses,   \* number of sessions opened
          good,  \* the last step honoured the contract
          hist, script
vars == <<z, h, m, map, stk, grp, past, panic, ses, good, hist, script>>

C == CASE CFG = 0 -> [sa |-> 16, mva |-> 16, va |-> 8, max |-> 1073741824, page |-> 0]
       [] CFG = 2 -> [sa |-> 32, mva |-> 16, va |-> 16, max |-> 2048, page |-> 0]
       [] CFG = 3 -> [sa |-> 16, mva |-> 16, va |-> 8, max |-> 1073741824, page |-> 64]   \* of the user's own
       [] CFG = 4 -> [sa |-> 64, mva |-> 32, va |-> 1, max |-> 1048576, page |-> 96]

(* Types of the harness: number -> size, alignment *)
ESz(ty) == CASE ty = 1 -> 8 [] ty = 2 -> 16 [] ty = 3 -> 0 [] ty = 4 -> 24
EAl(ty) == CASE ty = 1 -> 8 [] ty = 2 -> 16 [] ty = 3 -> 1 [] ty = 4 -> 8
RSz(ty) == CASE ty = 0 -> 8 [] ty = 1 -> 32 [] ty = 2 -> 48
RAl(ty) == CASE ty = 0 -> 8 [] ty = 1 -> 8 [] ty = 2 -> 16
KindOf(k) == CASE k \in {0, 1, 6} -> "pure" [] k = 7 -> "track" [] k \in {2, 3, 8} -> "offset" [] OTHER -> "complete"

Addr(l) == l * 100000        \* where place l is
InAddr(d) == 7000 * d        \* where the input block at depth d is
NoGroup == [addr |-> 0, ps |-> <<>>]
Dummy == [a |-> 0, p |-> 0]

---------------------------------------------------------------------------
(* What the implementation does.  g is the storage with memory             *)

S0 == [cap |-> h.cap, pos |-> h.pos, loc |-> h.loc, m |-> m, ok |-> TRUE, grew |-> FALSE]

HopTo(p, add) == IF C.page # 0 /\ add > 0 /\ p % C.page > 0 /\ add > C.page - (p % C.page)
                 THEN p + (C.page - (p % C.page)) ELSE p
Need(g, al, add) == HopTo(IF al > C.va THEN AlignUp(g.pos, al) ELSE g.pos, add) + add
GrowTo(g, need) == IF need > C.max THEN 0 ELSE Min2(C.max, IF g.cap = 0 THEN Max2(NextPow2(need), C.mva) ELSE NextPow2(need))
WillGrow(al, add) == Need(h, al, add) > h.cap

Write(mm, p, n, tok) == [q \in DOMAIN mm \cup { p + 8 * i : i \in 0..(n \div 8 - 1) } |->
                           IF q >= p /\ q < p + n THEN <<tok, q - p>> ELSE mm[q]]

(* align_for, reserve *)
Reserved(g, al, add, l) ==
  LET g1 == [g EXCEPT !.pos = IF al > C.va THEN AlignUp(g.pos, al) ELSE g.pos]
      g2 == [g1 EXCEPT !.pos = HopTo(g1.pos, add)] IN
  IF g2.pos + add <= g2.cap THEN g2
  ELSE LET nc == GrowTo(g2, g2.pos + add) IN
       IF nc = 0 THEN [g1 EXCEPT !.ok = FALSE]
       ELSE [g2 EXCEPT !.cap = nc, !.loc = l, !.grew = TRUE]
PushSlice(g, sz, al, n, tok, l) ==
  IF sz = 0 THEN [g |-> g, ret |-> 0]
  ELSE LET g1 == TLCEval(Reserved(g, al, sz * n, l)) IN
       IF ~g1.ok THEN [g |-> g1, ret |-> 0]
       ELSE [g |-> [g1 EXCEPT !.m = Write(g1.m, g1.pos, sz * n, tok), !.pos = AlignUp(g1.pos + sz * n, C.va)],
             ret |-> IF MUTANT = "pos_before_reserve" THEN (IF al > C.va THEN AlignUp(g.pos, al) ELSE g.pos) ELSE g1.pos]
Gap(g, sz, al, n, l) ==
  LET g1 == TLCEval(Reserved(g, al, sz * n, l)) IN
  IF ~g1.ok THEN [g |-> g1, ret |-> 0]
  ELSE [g |-> [g1 EXCEPT !.pos = AlignUp(g1.pos + sz * n, C.va)], ret |-> g1.pos]

Lookup(mp, a) == a - mp.a + mp.p

(* overwrite_ptr: r = [g, grp, past] *)
WritePtr(r, p, target, oldloc) ==
  IF z.kind = "offset" THEN [r EXCEPT !.g.m = [r.g.m EXCEPT ![p] = <<-1, target>>]]
  ELSE LET base == Addr(r.g.loc)
           from == IF MUTANT = "stale_base" THEN Addr(oldloc) ELSE base
           g1 == [r.g EXCEPT !.m = [r.g.m EXCEPT ![p] = <<-1, from + target>>]]
           sw == base # r.grp.addr
           keep == MUTANT = "no_switch" \/ r.grp.ps = <<>>
       IN [g |-> g1,
           past |-> IF sw /\ ~keep /\ MUTANT # "drop_past" THEN Append(r.past, r.grp) ELSE r.past,
           grp |-> [addr |-> IF sw /\ ~(MUTANT = "no_switch" /\ r.grp.ps # <<>>) THEN base ELSE r.grp.addr,
                    ps |-> Append(IF sw /\ ~keep THEN <<>> ELSE r.grp.ps, p)]]

(* correct_ptrs *)
Corrected(mm, gr, base) ==
  IF gr.addr = base THEN mm
  ELSE [q \in DOMAIN mm |->
          LET k == Cardinality({ i \in DOMAIN gr.ps : gr.ps[i] = q }) IN
          IF k = 0 THEN mm[q] ELSE <<mm[q][1], mm[q][2] + k * (base - gr.addr)>>]
RECURSIVE AllCorrected(_, _, _)
AllCorrected(mm, grs, base) ==
  IF grs = <<>> THEN mm ELSE AllCorrected(TLCEval(Corrected(mm, Head(grs), base)), Tail(grs), base)
Finalized ==
  IF z.kind # "complete" THEN m
  ELSE LET b == Addr(h.loc)
           m1 == IF MUTANT = "skip_current" THEN m ELSE TLCEval(Corrected(m, grp, b))
       IN AllCorrected(m1, IF MUTANT = "skip_past" THEN <<>> ELSE past, b)

---------------------------------------------------------------------------
(* Events as the harness records them *)

NopEv(api) == [api |-> api, op |-> "nop", sz |-> 0, al |-> 1, n |-> 0, add |-> 0, p |-> 0, tok |-> 0,
               ok |-> TRUE, ret |-> 0, rb |-> TRUE, off |-> -1, called |-> FALSE, kind |-> z.kind, words |-> <<>>]
TypEv(api, op, sz, al, n, tok, off) ==
  [NopEv(api) EXCEPT !.op = op, !.sz = sz, !.al = al, !.n = n, !.add = sz * n, !.tok = tok, !.off = off]

FreshTok == CHOOSE k \in 1..(Cardinality(z.st.runs) + 1) : \A r \in z.st.runs : r[3] # k

CellsOK(runs, mm) ==
  \A r \in runs : r[3] >= FROZEN \/
     \A q \in { r[1] + 8 * i : i \in 0..(r[2] \div 8 - 1) } : q \in DOMAIN mm /\ mm[q] = <<r[3], r[4] + (q - r[1])>>

Pm(stk2, mp) == IF stk2 = <<>> \/ z.kind \notin Trackers THEN -1 ELSE Lookup(mp, Top(stk2).a)

(* After event ev the implementation is in state g2, mp2, stk2, gr2, past2; op is what the program says *)
Do(ev, g2, mp2, stk2, gr2, past2, pan2, op) ==
  \E e1 \in {Effect(z, ev)} :
  \E x \in {Expect(C, z.st, e1)} :
  \E e2 \in {WithRet(z, e1, x)} :
  \E o \in {[cap |-> g2.cap, pos |-> g2.pos, loc |-> g2.loc, am |-> 0, live |-> TRUE,
             blk |-> IF g2.cap = 0 THEN [n |-> 0, size |-> 0, align |-> 0]
                     ELSE [n |-> 1, size |-> g2.cap, align |-> C.sa]]} :
  \E t0 \in {After(C, z.st, e2, x, o)} :
  \E z2 \in {NextSer(z, e2, x, t0)} :
  \E e \in {e2 @@ [er |-> 0, side |-> 0, acc |-> TRUE, full |-> FALSE, mem |-> <<>>,
                   depth |-> Len(stk2), pm |-> Pm(stk2, mp2),
                   bad |-> IF CellsOK(z2.st.runs, g2.m) THEN <<>> ELSE <<1>>]} :
    /\ z' = z2
    /\ h' = [cap |-> g2.cap, pos |-> g2.pos, loc |-> g2.loc]
    /\ m' = g2.m
    /\ map' = mp2 /\ stk' = stk2 /\ grp' = gr2 /\ past' = past2 /\ panic' = pan2
    /\ good' = All(C, z, z2, e, x, [Seen(z2, t0) EXCEPT !.failed = z2.st.failed])
    /\ hist' = hist \o op
    /\ script' = IF g2.grew THEN Append(script, g2.loc) ELSE script

Op(api, ty, n, off) == <<[api |-> api, ty |-> ty, n |-> n, off |-> off, via |-> (ty + n) % 2, catch |-> 1]>>
Locs(grows) == IF grows THEN LOCS ELSE {h.loc}
Same == UNCHANGED ses

---------------------------------------------------------------------------
(* Between sessions *)

Make == /\ z.kind = "" /\ ~z.st.live /\ hist = <<>>
        /\ \E n \in {0, 32} : \E l \in IF n = 0 THEN {0} ELSE LOCS :
             Do([NopEv("store") EXCEPT !.op = IF n = 0 THEN "new" ELSE "withcap", !.n = n, !.add = n],
                [S0 EXCEPT !.cap = n, !.loc = l, !.grew = n # 0], map, stk, grp, past, FALSE,
                Op(IF n = 0 THEN "new" ELSE "withcap", 0, n, 0))
        /\ Same
StoreClear == /\ z.kind = "" /\ z.st.live /\ ses > 0 /\ "clear" \in FEATURES /\ h.pos > 0
              /\ Do([NopEv("store") EXCEPT !.op = "clear"], [S0 EXCEPT !.pos = 0], map, stk, grp, past, FALSE,
                    Op("clear", 0, 0, 0))
              /\ Same
StoreShrink == /\ z.kind = "" /\ z.st.live /\ ses > 0 /\ "shrink" \in FEATURES
               /\ \E c \in {AlignUp(h.pos, C.mva)} : c # h.cap /\
                  \E l \in IF c = 0 THEN {0} ELSE LOCS :
                    Do([NopEv("store") EXCEPT !.op = "shrink"],
                       [S0 EXCEPT !.cap = c, !.loc = l, !.grew = c # 0,
                                  !.m = [q \in { y \in DOMAIN m : y < c } |-> m[q]]],
                       map, stk, grp, past, FALSE, Op("shrink", 0, 0, 0))
               /\ Same
Open == /\ z.kind = "" /\ z.st.live /\ ses < SESSIONS
        /\ \E k \in KINDS :
             Do([NopEv("open") EXCEPT !.kind = KindOf(k)], S0, Dummy, <<>>, NoGroup, <<>>, FALSE, Op("open", k, 0, 0))
        /\ ses' = ses + 1

---------------------------------------------------------------------------
(* Within a session *)

InSession == z.kind # "" /\ ~panic
Working   == InSession /\ stk # <<>>

Sval ==
  /\ InSession /\ stk = <<>>
  /\ \E ty \in {0, 1} : h.pos + RSz(ty) <= PMAX /\
     \E l \in Locs(WillGrow(RAl(ty), RSz(ty))) :
     \E tok \in {FreshTok} :
     \E r \in {PushSlice(S0, RSz(ty), RAl(ty), 1, tok, l)} :
       IF ~r.g.ok
       THEN Do([TypEv("sval", "pushs", RSz(ty), RAl(ty), 1, tok, -1) EXCEPT !.ok = FALSE],
               r.g, map, <<>>, grp, past, FALSE, Op("sval", ty, 1, 0))
       ELSE \E mp \in {[a |-> InAddr(1), p |-> r.ret]} :
            Do(TypEv("begin", "pushs", RSz(ty), RAl(ty), 1, tok, -1),
               r.g, mp, <<[map |-> Dummy, a |-> InAddr(1), used |-> {}]>>, grp, past, FALSE, Op("sval", ty, 1, 0))
  /\ Same

Slots == { o \in { 8 * i : i \in 0..(Top(z.frames).len \div 8 - 1) } : o \notin Top(stk).used }
UsedStk(o) == [stk EXCEPT ![Len(stk)].used = @ \cup {o}]
Things == { <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>> }
Fits(ty, n) == h.pos + ESz(ty) * n + 8 <= PMAX

Push ==
  /\ Working /\ "push" \in FEATURES
  /\ \E off \in Slots : \E t \in Things : Fits(t[1], t[2]) /\
     \E l \in Locs(WillGrow(EAl(t[1]), ESz(t[1]) * t[2])) :
     \E tok \in {FreshTok} :
     \E r \in {PushSlice(S0, ESz(t[1]), EAl(t[1]), t[2], tok, l)} :
     \E w \in {IF r.g.ok /\ z.kind \in Writers
               THEN WritePtr([g |-> r.g, grp |-> grp, past |-> past], Lookup(map, Top(stk).a + off), r.ret, h.loc)
               ELSE [g |-> r.g, grp |-> grp, past |-> past]} :
       Do([TypEv("push", "pushs", ESz(t[1]), EAl(t[1]), t[2], tok, off) EXCEPT !.ok = r.g.ok, !.ret = r.ret],
          w.g, map, UsedStk(off), w.grp, w.past, FALSE,
          Op(IF t[2] = 1 THEN "push1" ELSE "pushs", t[1], t[2], off))
  /\ Same

Begin ==
  /\ Working /\ Len(stk) < DEPTH
  /\ \E off \in Slots : \E t \in Things : Fits(t[1], t[2]) /\
     \E l \in Locs(WillGrow(EAl(t[1]), ESz(t[1]) * t[2])) :
     \E tok \in {FreshTok} :
     \E r \in {PushSlice(S0, ESz(t[1]), EAl(t[1]), t[2], tok, l)} :
     \E a \in {InAddr(Len(stk) + 1)} :
     \E mp \in {[a |-> a, p |-> r.ret]} :
     \E w \in {IF r.g.ok /\ z.kind \in Writers
               THEN WritePtr([g |-> r.g, grp |-> grp, past |-> past],
                             IF MUTANT = "new_map" THEN Lookup(mp, a) ELSE Lookup(map, Top(stk).a + off), r.ret, h.loc)
               ELSE [g |-> r.g, grp |-> grp, past |-> past]} :
       IF ~r.g.ok
       THEN Do([TypEv("begin", "pushs", ESz(t[1]), EAl(t[1]), t[2], tok, off) EXCEPT !.ok = FALSE],
               r.g, map, UsedStk(off), grp, past, FALSE, Op(IF t[2] = 1 THEN "pap1" ELSE "paps", t[1], t[2], off))
       ELSE Do(TypEv("begin", "pushs", ESz(t[1]), EAl(t[1]), t[2], tok, off),
               w.g, IF z.kind \in Trackers THEN mp ELSE map,
               Append(UsedStk(off), [map |-> map, a |-> a, used |-> {}]),
               w.grp, w.past, FALSE, Op(IF t[2] = 1 THEN "pap1" ELSE "paps", t[1], t[2], off))
  /\ Same

End ==
  /\ Working /\ Len(stk) > 1
  /\ Do([NopEv("end") EXCEPT !.ret = IF Top(z.frames).any THEN 0 ELSE Top(z.frames).pos],
        S0, IF MUTANT = "no_restore" THEN map ELSE Top(stk).map, Pop(stk), grp, past, FALSE, Op("end", 0, 0, 0))
  /\ Same

Send ==
  /\ Working /\ Len(stk) = 1
  /\ Do([NopEv("send") EXCEPT !.ret = z.frames[1].pos,
          !.words = IF z.kind = "offset" THEN [q \in z.ptrs |-> <<q[1], m[q[1]][2]>>] ELSE <<>>],
        S0, map, <<>>, grp, past, FALSE, Op("end", 0, 0, 0))
  /\ Same

Raw ==
  /\ InSession /\ "raw" \in FEATURES
  /\ \E t \in {<<1, 1>>, <<2, 1>>} : Fits(t[1], t[2]) /\
     \E l \in Locs(WillGrow(EAl(t[1]), ESz(t[1]) * t[2])) :
     \E tok \in {FreshTok} :
     \E r \in {PushSlice(S0, ESz(t[1]), EAl(t[1]), t[2], tok, l)} :
       Do([TypEv("raw", "pushs", ESz(t[1]), EAl(t[1]), t[2], tok, -1) EXCEPT !.ok = r.g.ok, !.ret = r.ret],
          r.g, map, stk, grp, past, FALSE, Op("raw1", t[1], t[2], 0))
  /\ Same
Empty ==
  /\ Working /\ "empty" \in FEATURES
  /\ \E n \in {0, 1} : Fits(1, n) /\
     \E l \in Locs(WillGrow(8, 8 * n)) :
     \E r \in {Gap(S0, 8, 8, n, l)} :
       Do([TypEv("raw", "emptys", 8, 8, n, 0, -1) EXCEPT !.ok = r.g.ok, !.ret = r.ret],
          r.g, map, stk, grp, past, FALSE, Op("emptys", 1, n, 0))
  /\ Same
Reserve ==
  /\ InSession /\ "reserve" \in FEATURES
  /\ \E n \in {h.cap - h.pos + 1, C.max - h.pos + 1} : (IF n + h.pos > C.max THEN CFG = 2 ELSE n + h.pos <= PMAX) /\
     \E l \in Locs(n + h.pos <= C.max) :
     \E g \in {Reserved(S0, 1, n, l)} :
       Do([NopEv("raw") EXCEPT !.op = "reserve", !.n = n, !.add = n, !.ok = g.ok],
          g, map, stk, grp, past, FALSE, Op("reserve", 0, n, 0))
  /\ Same
(* The storage is shrunk while a serializer uses it *)
ShrinkIn ==
  /\ InSession /\ "sshrink" \in FEATURES
  /\ \E c \in {AlignUp(h.pos, C.mva)} : c # h.cap /\
     \E l \in IF c = 0 THEN {0} ELSE LOCS :
       Do([NopEv("raw") EXCEPT !.op = "shrink"],
          [S0 EXCEPT !.cap = c, !.loc = l, !.grew = c # 0,
                     !.m = [q \in { y \in DOMAIN m : y < c } |-> m[q]]],
          map, stk, grp, past, FALSE, Op("sshrink", 0, 0, 0))
  /\ Same
Overwrite ==
  /\ Working /\ "ow" \in FEATURES
  /\ \E off \in Slots :
     \E tok \in {FreshTok} :
     \E g \in {IF z.kind = "complete" THEN [S0 EXCEPT !.m = Write(m, Lookup(map, Top(stk).a + off), 8, tok)] ELSE S0} :
       Do(TypEv("ow", "ow", 8, 8, 1, tok, off),
          g, map, UsedStk(off), grp, past, FALSE, Op("ow", 1, 1, off))
  /\ Same
(* User code panics; the panic leaves serialize_value without restoring anything *)
Panic ==
  /\ Working /\ "panic" \in FEATURES
  /\ panic' = TRUE
  /\ hist' = hist \o Op("panic", 0, 0, 0)
  /\ UNCHANGED <<z, h, m, map, stk, grp, past, ses, good, script>>
RECURSIVE Ends(_)
Ends(n) == IF n = 0 THEN <<>> ELSE Op("end", 0, 0, 0) \o Ends(n - 1)
Unwind ==     \* (the program goes on after the ends of what is skipped)
  /\ panic
  /\ Do(NopEv("unwind"), S0, map, <<>>, grp, past, FALSE, Ends(Len(stk)))
  /\ Same

Finalize ==
  /\ InSession /\ stk = <<>>
  /\ \E mm \in {Finalized} :
       Do([NopEv("finalize") EXCEPT !.words =
             [q \in z.ptrs |-> <<q[1], mm[q[1]][2] - (IF z.kind = "complete" THEN Addr(h.loc) ELSE 0)>>]],
          [S0 EXCEPT !.m = [q \in DOMAIN mm |-> IF mm[q][1] = -1 THEN <<FROZEN + q, 0>> ELSE mm[q]]],
          Dummy, <<>>, NoGroup, <<>>, FALSE, Op("finalize", 0, 0, 0))
  /\ Same

---------------------------------------------------------------------------
Init == /\ z = NoSer /\ h = [cap |-> 0, pos |-> 0, loc |-> 0] /\ m = [q \in {} |-> <<0, 0>>]
        /\ map = Dummy /\ stk = <<>> /\ grp = NoGroup /\ past = <<>> /\ panic = FALSE /\ ses = 0
        /\ good = TRUE /\ hist = <<>> /\ script = <<>>
Next == \/ Make \/ StoreClear \/ StoreShrink \/ Open
        \/ Sval \/ Push \/ Begin \/ End \/ Send \/ Raw \/ Empty \/ Reserve \/ ShrinkIn \/ Overwrite \/ Panic \/ Unwind \/ Finalize
Spec == Init /\ [][Next]_vars

(* Every step honours the contract *)
Contract == good

(* Why finalizing is right, at every moment: each pointer word is what its  *)
(* group's address says, and each recorded position is in one group, once   *)
GroupOf(p) == { g \in {grp} \cup Range(past) : p \in Range(g.ps) }
GroupInv ==
  z.kind = "complete" =>
    /\ \A q \in z.ptrs : \E g \in GroupOf(q[1]) :
         m[q[1]] = <<-1, g.addr + (IF q[2] = -1 THEN 0 ELSE q[2])>>
    /\ \A q \in z.ptrs : Cardinality({ <<i, k>> \in (0..Len(past)) \X (1..Cardinality(z.ptrs)) :
                             LET g == IF i = 0 THEN grp ELSE past[i] IN k \in DOMAIN g.ps /\ g.ps[k] = q[1] }) = 1
    /\ \A g \in {grp} \cup Range(past) : \A p \in Range(g.ps) : \E q \in z.ptrs : q[1] = p
    /\ \A i \in DOMAIN past : past[i].ps # <<>>
(* The mapping always leads to the copy of the block being processed *)
MapInv == z.kind \in Trackers /\ stk # <<>> /\ ~panic /\ ~Top(z.frames).any =>
            Lookup(map, Top(stk).a) = Top(z.frames).pos

Bounded == TLCGet("level") <= LEVELS
View == <<z, h, m, map, stk, grp, past, panic, ses, good>>

---------------------------------------------------------------------------
(* Test generation *)
GenView == <<z.kind, z.st.failed, z.st.reused, [i \in DOMAIN z.frames |-> <<z.frames[i].pos, z.frames[i].len>>], h,
             Cardinality(z.ptrs), Len(past), grp.addr, panic, ses, [i \in DOMAIN stk |-> stk[i].used]>>
Whole == IOEnv.GEN = "whole"    \* only complete programs (for simulation)
Emit == (IF Whole THEN z.kind # "" /\ z'.kind = "" ELSE ~panic') =>
        PrintT("T" \o ToJson([cfg |-> CFG, ops |-> hist', script |-> script']))
============================================================================
