----------------------------- MODULE TraceConfig -----------------------------
(* What the compiler and the helpers said against what the rules say.        *)
EXTENDS Config, Json, IOUtils, TLC

ASSUME "TRACE" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, good
vars == <<sc, l, good>>
Init == sc \in DOMAIN Trace /\ l = 0 /\ good = TRUE
OK(e) ==
  CASE e.api = "config" -> e.compiled = Valid(e.c)
    [] e.api = "type" -> e.size > 0 => e.compiled = Storable(e.c, e.al)
    [] e.api = "max_capacity" -> e.ret = MaxCapacity(e.a)
    [] e.api = "max_u32_capacity" -> e.ret = MaxU32Capacity(e.a)
    [] e.api = "fresh" -> e.pos = Zero /\ e.cap = Zero /\ e.consts = <<e.c.sa, e.c.mva, e.c.va, e.c.max>>
    [] e.api = "prealloc" -> IF ~Leq(e.a, e.c.max) THEN e.ret = Refused ELSE e.ret # Refused /\ Proper(e.c, e.ret, e.a)
    [] e.api = "reserve" -> IF ~Leq(e.a, e.c.max) THEN e.ret = Refused ELSE e.ret # Refused /\ Proper(e.c, e.ret, e.a)
    [] OTHER -> FALSE
Next == /\ l < Len(Trace[sc].ev)
        /\ good' = OK(Trace[sc].ev[l + 1])
        /\ l' = l + 1
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
Accepted == good
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, s : n + Len(s.ev) + 1, 0, Trace)
Where == [scenario |-> sc, event |-> l, step |-> IF l = 0 THEN <<>> ELSE Trace[sc].ev[l]]
============================================================================
