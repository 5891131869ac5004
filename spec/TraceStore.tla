----------------------------- MODULE TraceStore -----------------------------
(* Is every recorded step of a storage one the specification allows?        *)
(* Trace file (TRACE): one scenario per line. Property: FOCUS.               *)
EXTENDS Store, Json, IOUtils, TLC, SequencesExt

ASSUME "TRACE" \in DOMAIN IOEnv /\ "FOCUS" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES sc,   \* scenario (line of the trace file)
          l,    \* events consumed
          st,   \* state of the storage
          good  \* the last step satisfied the property
vars == <<sc, l, st, good>>

Init == /\ sc \in DOMAIN Trace
        /\ l = 0
        /\ st = NoStore
        /\ good = TRUE

Obs(e) == [cap |-> e.cap, pos |-> e.pos, loc |-> e.loc, am |-> e.am, live |-> e.live,
           blk |-> [n |-> e.bn, size |-> e.bs, align |-> e.ba]]

Next ==
  /\ l < Len(Trace[sc].ev)
  /\ \E c \in {Trace[sc].cfg} :      \* (\E over singletons: TLC computes each once)
     \E e \in {Trace[sc].ev[l + 1]} :
     \E x \in {Expect(c, st, e)} :
     IF "refused" \in DOMAIN e
     THEN st' = NoStore /\ good' = RefusedOK(Focus, c, e, x)
     ELSE
     \E t \in {After(c, st, e, x, Obs(e))} :
        /\ st' = t
        /\ good' = StepOK(Focus, c, st, e, t, x)
  /\ l' = l + 1
  /\ UNCHANGED sc

Spec == Init /\ [][Next]_vars

Accepted == good
(* Everything was consumed: one state per event plus one per scenario *)
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, s : n + Len(s.ev) + 1, 0, Trace)
Where == [scenario |-> sc, event |-> l, cfg |-> Trace[sc].cfg, step |-> IF l = 0 THEN <<>> ELSE Trace[sc].ev[l]]
============================================================================
