------------------------------ MODULE TraceSer ------------------------------
(* Is every recorded step of a serializer one the specification allows?     *)
EXTENDS Ser, Json, IOUtils, TLC, SequencesExt

ASSUME "TRACE" \in DOMAIN IOEnv /\ "FOCUS" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES sc, l, z, good
vars == <<sc, l, z, good>>

Init == /\ sc \in DOMAIN Trace
        /\ l = 0
        /\ z = NoSer
        /\ good = TRUE

Obs(e) == [cap |-> e.cap, pos |-> e.pos, loc |-> e.loc, am |-> e.am, live |-> e.live,
           blk |-> [n |-> e.bn, size |-> e.bs, align |-> e.ba]]

(* Positions beyond what TLC can count are recorded relative to e.bias; the  *)
(* capacity is then checked by its limbs                                     *)
Wide(c, s, e, x) ==
  l > 0 /\ "capw" \in DOMAIN e /\ e.bias # <<0, 0>> =>
    LET p == Trace[sc].ev[l]
        need == WAdd(e.bias, x.start + e.add)
    IN "capw" \in DOMAIN p =>
         CASE e.op \in GrowOps /\ e.ok /\ ~(e.sz = 0 /\ e.op \notin {"reserve", "bytes"}) ->
                IF WLeq(need, p.capw) THEN e.capw = p.capw ELSE WLeastPow2(e.capw, need)
           [] e.op = "withcapu" -> IF WLeq(e.bias, p.capw) THEN e.capw = p.capw ELSE WLeastPow2(e.capw, e.bias)
           [] e.op = "shrink" -> e.capw = WAdd(e.bias, AlignUp(s.pos, c.mva))
           [] OTHER -> e.capw = p.capw

Next ==
  /\ l < Len(Trace[sc].ev)
  /\ \E c \in {Trace[sc].cfg} :
     \E e0 \in {Trace[sc].ev[l + 1]} :
       IF e0.api = "lost"
       THEN /\ z' = NextSer(z, e0, [start |-> 0], z.st)
            /\ good' = TRUE
       ELSE \E e1 \in {Effect(z, e0)} :
            \E x \in {Expect(c, z.st, e1)} :
            \E e \in {WithRet(z, e1, x)} :
            \E t0 \in {After(c, z.st, e, x, Obs(e))} :
            \E z2 \in {NextSer(z, e, x, t0)} :
               /\ z' = z2
               /\ good' = (/\ SerOK(Focus, c, z, z2, e, x,
                                     [Seen(z2, t0) EXCEPT !.failed = z2.st.failed])
                           /\ Focus \in {"C06", "C19", "ALL"} => Wide(c, z.st, e, x))
  /\ l' = l + 1
  /\ UNCHANGED sc

Spec == Init /\ [][Next]_vars
Accepted == good
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, s : n + Len(s.ev) + 1, 0, Trace)
Where == [scenario |-> sc, event |-> l, cfg |-> Trace[sc].cfg, step |-> IF l = 0 THEN <<>> ELSE Trace[sc].ev[l],
          kind |-> z.kind, frames |-> z.frames, ptrs |-> z.ptrs]
============================================================================
