------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* One storage (AlignedVec): what every operation does, and the properties *)
(* of the storage as predicates over one step (s, e, t):                   *)
(*    s  state before, t  state after, e  the operation with its outcome.  *)
(* MCStore checks the predicates on every step of the machine built from   *)
(* Expect; TraceStore evaluates them on every step recorded from the code. *)
(***************************************************************************)
EXTENDS Arith

(***************************************************************************)
(* Configuration c: [sa, mva, va, max, page].                              *)
(*   page  0 for AlignedVec; otherwise a storage of the user's own, whose  *)
(*         reserve moves on to the next page what does not fit into the    *)
(*         rest of this one                                                *)
(* State: [cap, pos, loc, am, runs, blk, live, raw, failed, reused]        *)
(*   loc   identity of the buffer's address, 0 if there is no buffer       *)
(*   am    the address modulo 2^16                                         *)
(*   runs  stored bytes: set of <<position, length, token, offset>>        *)
(*         (bytes offset .. offset+length-1 of what was pushed as token)   *)
(*   blk   [n, size, align] memory blocks held                             *)
(*   raw   an unchecked push was not yet followed by an alignment          *)
(*   failed, reused   some operation has failed / cleared or shrunk        *)
(***************************************************************************)
NoStore == [cap |-> 0, pos |-> 0, loc |-> 0, am |-> 0, runs |-> {},
            blk |-> [n |-> 0, size |-> 0, align |-> 0],
            live |-> FALSE, raw |-> FALSE, failed |-> FALSE, reused |-> FALSE]

PushOps  == {"push", "pushs", "bytes"}
GapOps   == {"empty", "emptys"}
FillOps  == PushOps \cup {"unchecked", "setpos"}           \* store bytes at the end
GrowOps  == FillOps \cup GapOps \cup {"reserve"}
WriteOps == {"write", "writes", "readmut"}                 \* in place
AlignOps == {"alignfor", "alignafter", "alignany", "align"}
MakeOps  == {"new", "withcap", "withcapu"}
AllOps   == GrowOps \cup WriteOps \cup AlignOps \cup MakeOps \cup {"read", "clear", "shrink", "drop", "nop"}

---------------------------------------------------------------------------
(* Stored bytes as runs *)

CutRun(r, lo, hi) ==
  LET a == r[1]  b == r[1] + r[2] IN
  IF b <= lo \/ a >= hi THEN {r}
  ELSE (IF a < lo THEN {<<a, lo - a, r[3], r[4]>>} ELSE {})
       \cup (IF b > hi THEN {<<hi, b - hi, r[3], r[4] + (hi - a)>>} ELSE {})
Cut(runs, p, n) == IF n = 0 THEN runs ELSE UNION { CutRun(r, p, p + n) : r \in runs }
Put(runs, p, n, tok) == IF n = 0 THEN runs ELSE Cut(runs, p, n) \cup {<<p, n, tok, 0>>}

---------------------------------------------------------------------------
(* Rules for capacity *)

Rounded(c, n) == AlignUp(n, c.mva)                         \* preallocation, shrinking
Grown(c, need) == Min2(Max2(NextPow2(need), c.mva), c.max) \* growth
FitsMax(c, start, add) == add <= c.max - start
CapFor(c, s, start, add) == IF add <= s.cap - start THEN s.cap ELSE Grown(c, start + add)

(* Where something of alignment al goes next; where n bytes of it do *)
Aligned(c, s, al) == IF al > c.va THEN AlignUp(s.pos, al) ELSE s.pos
Hop(c, p, n) == IF c.page = 0 \/ n = 0 \/ (p % c.page) + n <= c.page THEN p ELSE AlignUp(p, c.page)
Start(c, s, al, n) == Hop(c, Aligned(c, s, al), n)

---------------------------------------------------------------------------
(* What operation e must do in state s: does it succeed, what does it      *)
(* return, position, capacity and stored bytes afterwards.                 *)
(* e: op, sz/al of the type, n elements, add bytes asked for, p position   *)
Expect(c, s, e) ==
  LET same == [ok |-> TRUE, ret |-> 0, pos |-> s.pos, cap |-> s.cap, runs |-> s.runs, start |-> s.pos]
      bytes == e.sz * e.n
  IN
  CASE e.op \in PushOps \cup GapOps ->
         LET isb   == e.op = "bytes"
             al    == IF isb THEN 1 ELSE e.al
             start == Start(c, s, al, e.add)
         IN IF e.sz = 0 /\ ~isb
            THEN [same EXCEPT !.start = start]
            ELSE IF ~FitsMax(c, start, e.add)
            THEN [same EXCEPT !.ok = FALSE, !.start = start]
            ELSE [ok |-> TRUE, ret |-> start, pos |-> AlignUp(start + e.add, c.va),
                  cap |-> CapFor(c, s, start, e.add),
                  runs |-> IF e.op \in PushOps THEN Put(s.runs, start, e.add, e.tok) ELSE s.runs,
                  start |-> start]
    [] e.op \in {"unchecked", "setpos"} ->
         LET start == IF e.op = "setpos" THEN Hop(c, s.pos, e.add) ELSE Start(c, s, e.al, e.add)
         IN IF ~FitsMax(c, start, e.add)
            THEN [same EXCEPT !.ok = FALSE, !.start = start]
            ELSE [ok |-> TRUE, ret |-> start, pos |-> start + e.add,
                  cap |-> CapFor(c, s, start, e.add),
                  runs |-> Put(s.runs, start, e.add, e.tok), start |-> start]
    [] e.op = "reserve" ->
         LET start == Hop(c, s.pos, e.add) IN
         IF ~FitsMax(c, start, e.add) THEN [same EXCEPT !.ok = FALSE]
         ELSE [same EXCEPT !.pos = start, !.cap = CapFor(c, s, start, e.add)]
    [] e.op = "alignfor"   -> [same EXCEPT !.pos = Aligned(c, s, e.al)]
    [] e.op = "alignafter" -> [same EXCEPT !.pos = IF e.sz % c.va = 0 THEN s.pos ELSE AlignUp(s.pos, c.va)]
    [] e.op = "alignany"   -> [same EXCEPT !.pos = AlignUp(s.pos, c.va)]
    [] e.op = "align"      -> [same EXCEPT !.pos = AlignUp(s.pos, e.n)]
    [] e.op = "clear"      -> [same EXCEPT !.pos = 0, !.runs = {}]
    [] e.op = "shrink"     -> IF s.cap = UNIT THEN same  \* stands for something beyond TLC's numbers
                              ELSE [same EXCEPT !.cap = Rounded(c, s.pos)]
    [] e.op \in WriteOps   -> [same EXCEPT !.ret = e.p, !.runs = Put(s.runs, e.p, bytes, e.tok)]
    [] e.op = "read"       -> [same EXCEPT !.ret = e.p]
    [] e.op = "nop"        -> same
    [] e.op \in {"new", "drop"} -> [same EXCEPT !.pos = 0, !.cap = 0, !.runs = {}, !.start = 0]
    [] e.op = "withcap"    -> IF e.add > c.max
                              THEN [same EXCEPT !.ok = FALSE, !.pos = 0, !.cap = 0, !.runs = {}, !.start = 0]
                              ELSE [same EXCEPT !.pos = 0, !.cap = Rounded(c, e.add), !.runs = {}, !.start = 0]
    [] e.op = "withcapu"   -> [same EXCEPT !.pos = 0, !.cap = e.add, !.runs = {}, !.start = 0]

(* Is position unaligned after e? *)
RawAfter(s, e) == IF e.op = "unchecked" THEN TRUE
                  ELSE IF e.op \in {"alignafter", "alignany", "align", "clear", "drop"} \cup MakeOps THEN FALSE
                  ELSE s.raw

(* Bytes in storage after e, as far as they are determined *)
RunsAfter(s, e, x) == IF e.ok THEN x.runs
                      ELSE IF e.op \in MakeOps THEN {} ELSE s.runs

---------------------------------------------------------------------------
(* The properties, as predicates over one step.                            *)
(* e also has: ok, ret, rb (what was written reads back), bad (runs that   *)
(* can no longer be read), full/mem (all runs that can be read), er        *)
(* (allocator complaints)                                                  *)

CapInv(c, t)  == t.pos <= t.cap /\ t.cap <= c.max /\ t.cap % c.mva = 0
PosInv(c, t)  == ~t.raw => t.pos % c.va = 0
BufAligned(c, t) == t.cap > 0 => t.am % c.sa = 0
MemOK(s, e, t) == /\ e.bad = <<>>
                  /\ e.full => Range(e.mem) = t.runs
OneBlock(c, e, t) == /\ e.er = 0
                     /\ IF t.cap > 0 THEN t.blk = [n |-> 1, size |-> t.cap, align |-> c.sa]
                        ELSE t.blk.n = 0

(* C05 alignment, minimal padding *)
C05(c, s, e, t, x) ==
  /\ BufAligned(c, t)
  /\ PosInv(c, t)
  /\ e.ok /\ e.op \in PushOps \cup GapOps \cup {"unchecked"} =>
       LET al == IF e.op = "bytes" THEN 1 ELSE e.al IN
       /\ e.ret % al = 0
       /\ (t.am + e.ret) % al = 0
       /\ IF e.sz = 0 /\ e.op # "bytes"
          THEN e.ret <= t.pos /\ t.pos \in {s.pos, AlignUp(x.start, c.va)}
          ELSE e.ret = x.ret /\ t.pos = x.pos
  /\ e.ok /\ e.op \in AlignOps \cup {"setpos"} => t.pos = x.pos
  /\ e.ok /\ e.op \in {"reserve", "shrink", "nop"} => t.pos = x.pos

(* C06 capacity *)
C06(c, s, e, t, x) ==
  /\ CapInv(c, t)
  /\ e.op \in GrowOps => /\ e.ok = x.ok
                         /\ t.cap = (IF e.ok THEN x.cap ELSE s.cap)
  /\ e.op \in MakeOps => /\ e.ok = x.ok
                         /\ t.cap = (IF e.ok THEN x.cap ELSE 0)
  /\ e.op = "shrink"  => e.ok /\ t.cap <= s.cap
  /\ e.op \in AlignOps \cup WriteOps \cup {"read", "clear", "nop"} => e.ok /\ t.cap = s.cap

(* C07 stored bytes *)
C07(c, s, e, t, x) ==
  /\ MemOK(s, e, t)
  /\ e.ok /\ e.op \in FillOps /\ e.add > 0 =>
       /\ e.ret >= s.pos
       /\ t.pos >= e.ret + e.add
       /\ e.rb

(* C12 memory *)
C12(c, s, e, t, x) == OneBlock(c, e, t)

Conform(c, s, e, t, x) ==
  C05(c, s, e, t, x) /\ C06(c, s, e, t, x) /\ C07(c, s, e, t, x) /\ C12(c, s, e, t, x)

(* C14 failures *)
C14(c, s, e, t, x) ==
  t.failed =>
    /\ Conform(c, s, e, t, x)
    /\ ~e.ok /\ e.op \notin MakeOps =>
         /\ s.pos <= t.pos
         /\ t.pos <= AlignUp(x.start, c.va)
         /\ t.cap = s.cap

(* C15 gaps and in-place writes *)
C15(c, s, e, t, x) ==
  /\ e.op \in GapOps =>
       /\ e.ok = x.ok
       /\ CapInv(c, t)
       /\ e.bad = <<>>
       /\ e.ok => e.ret % e.al = 0 /\ e.ret >= 0 /\ (e.sz > 0 => e.ret >= s.pos) /\ t.pos - e.ret >= e.add
  /\ e.op \in WriteOps => /\ e.ok /\ e.rb
                          /\ MemOK(s, e, t)
                          /\ t.pos = s.pos /\ t.cap = s.cap /\ t.loc = s.loc
  /\ e.op = "read" => e.ok /\ e.ret = e.p /\ MemOK(s, e, t)
  /\ e.ok /\ e.op \in FillOps /\ e.add > 0 => e.ret >= s.pos  \* leaves gaps free

(* C16 clear, shrink, reuse *)
C16(c, s, e, t, x) ==
  /\ e.op = "clear"  => e.ok /\ t.pos = 0 /\ t.cap = s.cap /\ t.loc = s.loc
  /\ e.op = "shrink" => e.ok /\ t.pos = s.pos /\ t.cap = x.cap /\ (t.cap = 0 => t.blk.n = 0)
  /\ t.reused => Conform(c, s, e, t, x)

StepOK(prop, c, s, e, t, x) ==
  CASE prop = "C05" -> C05(c, s, e, t, x)
    [] prop = "C06" -> C06(c, s, e, t, x)
    [] prop = "C07" -> C07(c, s, e, t, x)
    [] prop = "C12" -> C12(c, s, e, t, x)
    [] prop = "C14" -> C14(c, s, e, t, x)
    [] prop = "C15" -> C15(c, s, e, t, x)
    [] prop = "C16" -> C16(c, s, e, t, x)
    [] prop \in {"C20", "ALL"} -> /\ Conform(c, s, e, t, x) /\ C14(c, s, e, t, x)
                       /\ C15(c, s, e, t, x) /\ C16(c, s, e, t, x)

(* The allocator refused memory (rs bytes, alignment ra): the program is    *)
(* stopped by the handler of allocation errors, which is told what was      *)
(* refused (hs, ha), or the operation panics; it does not go on             *)
RefusedOK(prop, c, e, x) ==
  /\ prop \in {"C12", "C20", "ALL"} => /\ e.er = 0 /\ e.ra = c.sa
                                      /\ (e.stopped => (e.hs = e.rs /\ e.ha = e.ra))
  /\ prop \in {"C06", "C20", "ALL"} => (x.ok /\ e.rs = x.cap)

(* State after e, from observations o (cap, pos, loc, am, blk, live) *)
After(c, s, e, x, o) ==
  [cap |-> o.cap, pos |-> o.pos, loc |-> o.loc, am |-> o.am, blk |-> o.blk, live |-> o.live,
   runs |-> RunsAfter(s, e, x), raw |-> RawAfter(s, e),
   failed |-> (s.failed \/ ~e.ok) /\ e.op \notin {"new", "drop"},
   reused |-> (s.reused \/ e.op \in {"clear", "shrink"}) /\ e.op \notin MakeOps \cup {"drop"}]
============================================================================
