----------------------------- MODULE TraceDerive -----------------------------
(* Recorded visits against the specification                                 *)
EXTENDS Derive, Json, IOUtils, TLC

ASSUME "TRACE" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, good
vars == <<sc, l, good>>
Init == sc \in DOMAIN Trace /\ l = 0 /\ good = TRUE
OK(e) ==
  CASE e.api = "accept" -> e.ok
    [] e.api = "visit" -> e.log = Marks(e.value)
    [] OTHER -> FALSE
Next == /\ l < Len(Trace[sc].ev)
        /\ good' = OK(Trace[sc].ev[l + 1])
        /\ l' = l + 1
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
Accepted == good
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, s : n + Len(s.ev) + 1, 0, Trace)
Where == [scenario |-> sc, event |-> l, step |-> IF l = 0 THEN <<>> ELSE Trace[sc].ev[l]]
============================================================================
