-------------------------------- MODULE Ser --------------------------------
(***************************************************************************)
(* Serializers over one storage: the contract that user-written            *)
(* serialization relies on.  State and properties as predicates over one   *)
(* step, on top of module Store.                                           *)
(*                                                                         *)
(* State z:                                                                *)
(*   st      the storage (module Store)                                    *)
(*   kind    "pure", "track", "offset", "complete", or "" between sessions *)
(*   frames  allocations being processed, innermost last:                  *)
(*           [pos, len, slot, any]: where its copy is, its length, position*)
(*           of the pointer to it; any: it has no size, and its position   *)
(*           is not known yet                                              *)
(*   ptrs    pointers written in this session: <<position, target>>        *)
(*                                                                         *)
(* Events e (api):                                                         *)
(*   open kind     a serializer is made on the storage                     *)
(*   begin         an allocation was pushed and its processing begins      *)
(*                 (off: place of the pointer to it within the enclosing   *)
(*                 allocation, -1 for a value given to serialize_value)    *)
(*   end           its processing is over, the call returns                *)
(*   push          an allocation was pushed without processing             *)
(*   raw           something that leaves pointers alone                    *)
(*   ow, oww       corrections                                             *)
(*   posfor        a position was looked up                                *)
(*   sval          pushing a value for serialize_value failed              *)
(*   send          serialize_value returned                                *)
(*   unwind        serialize_value panicked                                *)
(*   finalize, serialized    the output is complete                        *)
(*   lost          the serializer was dropped without finalizing           *)
(*   kept          the borrowed storage after that                         *)
(*   store         operation on the storage between sessions               *)
(***************************************************************************)
EXTENDS Store

NoSer == [st |-> NoStore, kind |-> "", frames |-> <<>>, ptrs |-> {}]
Writers  == {"offset", "complete"}
Trackers == {"track", "offset", "complete"}
Top(f) == f[Len(f)]
Pop(f) == SubSeq(f, 1, Len(f) - 1)
FROZEN == 500000000

(* What the event does to the storage.                                      *)
(* Corrections are applied by complete serializers only.                    *)
Effect(z, e) ==
  IF e.api = "ow"
  THEN IF z.kind = "complete"
       THEN [e EXCEPT !.op = "write", !.p = Top(z.frames).pos + e.off]
       ELSE [e EXCEPT !.op = "nop"]
  ELSE e

(* At "begin" the position is not yet returned: what it has to be *)
WithRet(z, e, x) == IF e.api = "begin" /\ e.ok
                    THEN [e EXCEPT !.ret = IF e.sz = 0 THEN 0 ELSE x.start] ELSE e

IsPtr(z, e) == e.api \in {"push", "begin"} /\ e.ok /\ e.off >= 0 /\ z.kind \in Writers
Slot(z, e) == IF e.off >= 0 /\ z.frames # <<>> THEN Top(z.frames).pos + e.off ELSE -1

(* The next state; t is the storage as observed afterwards *)
NextSer(z, e, x, t) ==
  LET slot == Slot(z, e)
      runs == IF IsPtr(z, e) THEN Cut(t.runs, slot, 8) ELSE t.runs
      frames ==
        CASE e.api = "begin" /\ e.ok ->
               Append(z.frames, [pos |-> IF e.sz = 0 THEN -1 ELSE x.start, len |-> e.sz * e.n,
                                 slot |-> IF IsPtr(z, e) THEN slot ELSE -1, any |-> e.sz = 0])
          [] e.api = "end" -> IF z.frames = <<>> THEN <<>> ELSE Pop(z.frames)
          [] e.api \in {"open", "send", "unwind", "finalize", "serialized", "lost"} -> <<>>
          [] OTHER -> z.frames
      ptrs ==
        CASE IsPtr(z, e) ->
               { q \in z.ptrs : q[1] # slot }
               \cup {<<slot, IF e.api = "push" THEN e.ret ELSE IF e.sz = 0 THEN -1 ELSE x.start>>}
          [] e.api = "end" /\ z.frames # <<>> /\ Top(z.frames).any /\ Top(z.frames).slot >= 0 ->
               { q \in z.ptrs : q[1] # Top(z.frames).slot } \cup {<<Top(z.frames).slot, e.ret>>}
          [] e.api \in {"open", "finalize", "serialized", "lost", "store"} -> {}
          [] OTHER -> z.ptrs
  IN [st |-> [t EXCEPT !.runs =
                IF e.api \in {"finalize", "serialized"}
                THEN runs \cup { <<q[1], 8, FROZEN + q[1], 0>> : q \in z.ptrs } ELSE runs,
                       !.failed = t.failed \/ e.api \in {"unwind", "lost"}],
      kind |-> IF e.api = "open" THEN e.kind
               ELSE IF e.api \in {"finalize", "serialized", "lost", "kept", "store"} THEN "" ELSE z.kind,
      frames |-> frames, ptrs |-> ptrs]

---------------------------------------------------------------------------
(* Parts of the contract.  e is the event with its effect; z2 afterwards;   *)
(* t the storage observed, with the bytes it has to hold.                   *)

Seen(z2, t) == [t EXCEPT !.runs = { r \in z2.st.runs : r[3] # FROZEN + r[1] \/ r \in t.runs }]

(* The copy starts at the position returned *)
RetOK(z, e) ==
  /\ e.api = "end" => /\ z.frames # <<>>
                      /\ ~Top(z.frames).any => e.ret = Top(z.frames).pos
                      /\ Top(z.frames).any => e.ret >= 0 /\ e.ret <= z.st.pos
  /\ e.api \in {"send", "serialized"} => Len(z.frames) = 1 /\ e.ret = z.frames[1].pos
  /\ e.api \in {"finalize", "store"} => z.frames = <<>>

(* The words named as pointers lead to what was pushed with them *)
PtrsOK(z, e) ==
  e.api \in {"finalize", "serialized"} \/ (e.api = "send" /\ z.kind = "offset") =>
    /\ \A q \in z.ptrs : \E w \in Range(e.words) : w[1] = q[1] /\ q[2] \in {w[2], -1}
    /\ \A w \in Range(e.words) : \E q \in z.ptrs : w[1] = q[1]

LookupOK(z, z2, e) ==
  /\ z2.kind \in Trackers /\ z2.frames # <<>> /\ e.api \notin {"unwind"} /\ ~Top(z2.frames).any
       => e.pm = Top(z2.frames).pos
  /\ e.api = "posfor" =>
       e.ret = (IF z.kind \in Trackers THEN Top(z.frames).pos + e.off ELSE -1)

FixOK(z, e) == e.api = "oww" => e.called = (z.kind = "complete")
AccOK(e) == e.acc
DepthOK(z2, e) == e.depth = Len(z2.frames)

LayoutOK(e, x, t) ==
  e.ok /\ e.op \in PushOps \cup GapOps /\ ~(e.op # "bytes" /\ e.sz = 0) => e.ret = x.ret /\ t.pos = x.pos

All(c, z, z2, e, x, t) ==
  /\ Conform(c, z.st, e, t, x) /\ C14(c, z.st, e, t, x) /\ C15(c, z.st, e, t, x) /\ C16(c, z.st, e, t, x)
  /\ RetOK(z, e) /\ PtrsOK(z, e) /\ LookupOK(z, z2, e) /\ FixOK(z, e) /\ AccOK(e) /\ DepthOK(z2, e)
  /\ LayoutOK(e, x, t)
  /\ e.api \in {"finalize", "serialized", "kept", "store"} => e.side = 0

SerOK(prop, c, z, z2, e, x, t) ==
  CASE prop = "C02" -> (z.kind = "complete" => PtrsOK(z, e) /\ RetOK(z, e) /\ DepthOK(z2, e))
    [] prop = "C03" -> (z.kind = "offset" => PtrsOK(z, e) /\ RetOK(z, e) /\ DepthOK(z2, e) /\ MemOK(z.st, e, t))
    [] prop = "C05" -> C05(c, z.st, e, t, x)
    [] prop = "C06" -> C06(c, z.st, e, t, x)
    [] prop = "C07" -> MemOK(z.st, e, t)
    [] prop = "C09" -> /\ RetOK(z, e) /\ PtrsOK(z, e) /\ MemOK(z.st, e, t)
                       /\ e.ok /\ e.op \in PushOps /\ e.add > 0 => e.ret >= z.st.pos /\ t.pos >= e.ret + e.add
    [] prop = "C10" -> LookupOK(z, z2, e) /\ RetOK(z, e) /\ DepthOK(z2, e)
    [] prop = "C11" -> LayoutOK(e, x, t) /\ RetOK(z, e) /\ (e.op = "nop" => t.pos = z.st.pos)
    [] prop = "C12" -> /\ OneBlock(c, e, t)
                       /\ e.api \in {"finalize", "serialized", "kept", "store"} => e.side = 0
    [] prop = "C14" -> z2.st.failed => All(c, z, z2, e, x, t)
    [] prop = "C15" -> C15(c, z.st, e, t, x) /\ MemOK(z.st, e, t)
    [] prop = "C16" -> z2.st.reused => All(c, z, z2, e, x, t)
    [] prop = "C18" -> /\ RetOK(z, e) /\ PtrsOK(z, e) /\ FixOK(z, e) /\ AccOK(e) /\ DepthOK(z2, e)
                       /\ MemOK(z.st, e, t) /\ LayoutOK(e, x, t)
    [] prop \in {"C19", "C20", "ALL"} -> All(c, z, z2, e, x, t)
============================================================================
