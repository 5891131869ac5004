---------------------------- MODULE TraceDefine ----------------------------
(* What the compiler said about definitions, and which fields the derived    *)
(* serializers used, against the specification                               *)
EXTENDS Define, Json, IOUtils, TLC, SequencesExt

ASSUME "TRACE" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, good
vars == <<sc, l, good>>
Init == sc \in DOMAIN Trace /\ l = 0 /\ good = TRUE
OK(e) ==
  CASE e.api = "define" -> e.compiled = WellFormed(e.d)
    [] e.api = "roles" ->
         LET r == Roles(e.d) IN
         /\ e.storage = r.storage /\ e.storage_mut = r.storage /\ e.into_storage = r.storage /\ e.finalize = r.storage
         /\ e.mapping = r.mapping /\ e.set_mapping = (IF r.mapping = 0 THEN <<>> ELSE <<r.mapping>>)
         /\ e.ptrs = r.ptrs /\ e.ptrs_mut = r.ptrs
    [] OTHER -> FALSE
Next == /\ l < Len(Trace[sc].ev)
        /\ good' = OK(Trace[sc].ev[l + 1])
        /\ l' = l + 1
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
Accepted == good
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, s : n + Len(s.ev) + 1, 0, Trace)
Where == [scenario |-> sc, event |-> l, step |-> IF l = 0 THEN <<>> ELSE Trace[sc].ev[l]]
============================================================================
