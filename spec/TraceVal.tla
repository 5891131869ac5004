------------------------------ MODULE TraceVal ------------------------------
(* Is what was found in the outputs what the specification of values says? *)
EXTENDS Value, Json, IOUtils, TLC

ASSUME "TRACE" \in DOMAIN IOEnv /\ "FOCUS" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

(* pos: position; failed: something failed before in this output; reused:   *)
(* the storage was used before                                              *)
VARIABLES sc, l, z, good
vars == <<sc, l, z, good>>

Init == /\ sc \in DOMAIN Trace
        /\ l = 0
        /\ z = [pos |-> 0, failed |-> FALSE, reused |-> FALSE]
        /\ good = TRUE

ValueOK(c, e) ==
  \E L \in {LayOut(c.va, c.max, z.pos, e.blks)} :
    LET whole == /\ e.pos0 = z.pos
                 /\ IF e.bomb \/ ~L.fits
                    THEN ~e.ok /\ e.pos1 >= e.pos0 /\ e.pos1 <= c.max /\ e.pos1 % c.va = 0
                    ELSE /\ e.ok /\ LayoutOK(e, L) /\ PtrsOK(e) /\ FoundOK(e) /\ CapsOK(e) /\ BytesOK(e) /\ e.eq
                 /\ BlocksOK(e)
    IN
    CASE Focus = "C01" -> e.ok /\ e.kind = "complete" => FoundOK(e) /\ PtrsOK(e) /\ e.eq /\ BytesOK(e)
      [] Focus = "C02" -> e.ok /\ e.kind = "complete" => LayoutOK(e, L) /\ PtrsOK(e)
      [] Focus = "C03" -> e.ok /\ e.kind = "offset" => LayoutOK(e, L) /\ PtrsOK(e) /\ BytesOK(e) /\ e.eq
      [] Focus = "C04" -> e.ok /\ e.kind = "pure" => LayoutOK(e, L) /\ e.diff = <<>> /\ e.eq /\ FoundOK(e)
      [] Focus = "C05" -> e.ok => LayoutOK(e, L) /\ FoundOK(e)
      [] Focus = "C08" -> e.ok => CapsOK(e) /\ BytesOK(e)
      [] Focus = "C09" -> e.pos0 = z.pos /\ (e.ok => LayoutOK(e, L) /\ e.eq /\ FoundOK(e))
      [] Focus = "C11" -> e.pos0 = z.pos /\ (e.ok => LayoutOK(e, L)) /\ BlocksOK(e)
      [] Focus = "C13" -> (~e.bomb => e.ok = L.fits) /\ (e.ok => LayoutOK(e, L) /\ e.eq)
      [] Focus = "C14" -> z.failed \/ e.bomb \/ ~L.fits \/ ~e.ok => whole
      [] Focus = "C16" -> z.reused => whole
      [] Focus \in {"C19", "ALL"} -> whole
      [] OTHER -> TRUE

Strict == Focus \in {"C19", "ALL"}
Next ==
  /\ l < Len(Trace[sc].ev)
  /\ \E c \in {Trace[sc].cfg} : \E e \in {Trace[sc].ev[l + 1]} :
       CASE e.api = "value" ->
              /\ good' = ValueOK(c, e)
              /\ z' = [z EXCEPT !.pos = e.pos1, !.failed = z.failed \/ ~e.ok]
         [] e.api = "open" -> /\ good' = (Strict => e.pos0 = z.pos) /\ UNCHANGED z
         [] e.api = "bytes" ->
              /\ good' = (Strict \/ (Focus = "C14" /\ z.failed) =>
                            /\ e.ok = (z.pos + e.n <= c.max)
                            /\ e.ok => e.pos1 = AlignUp(z.pos + e.n, c.va))
              /\ z' = [z EXCEPT !.pos = e.pos1]
         [] e.api = "fin" ->
              /\ good' = /\ Focus \in {"C07", "C09", "C12", "C19", "ALL"} \/ (Focus = "C14" /\ z.failed)
                              \/ (Focus = "C16" /\ z.reused) => e.pos1 = z.pos /\ e.kept
                         /\ Focus \in {"C12", "C19", "ALL"} => e.side = 0 /\ e.errs = 0
              /\ z' = [z EXCEPT !.reused = TRUE]
         [] e.api = "new" -> good' = (e.pos1 = 0) /\ z' = [pos |-> 0, failed |-> FALSE, reused |-> FALSE]
         [] e.api = "wide" -> good' = e.ok /\ z' = [z EXCEPT !.pos = 0]
         [] OTHER -> /\ good' = (Strict => e.pos1 = (IF e.api = "clear" THEN 0 ELSE z.pos))
                     /\ z' = [z EXCEPT !.pos = e.pos1]
  /\ l' = l + 1
  /\ UNCHANGED sc

Spec == Init /\ [][Next]_vars
Accepted == good
Complete == TLCGet("stats").distinct = FoldLeft(LAMBDA n, s : n + Len(s.ev) + 1, 0, Trace)
Where == [scenario |-> sc, event |-> l, cfg |-> Trace[sc].cfg, step |-> IF l = 0 THEN <<>> ELSE Trace[sc].ev[l], z |-> z]
============================================================================
