------------------------------- MODULE Define -------------------------------
(***************************************************************************)
(* Definitions given to the derive macros: which are complete and           *)
(* unambiguous, and which field plays which role in a derived serializer.   *)
(*                                                                         *)
(* A serializer:  [of |-> "serializer", shape, types, fields]               *)
(*   types   the `ser_type` attributes, each what it says                   *)
(*   fields  [is, tags]: what the field is ("storage", "mapping", "ptrs",   *)
(*           "other") and the attributes on it; a tag is the name of the    *)
(*           role, "bare" or "two" (malformed tags of a storage)            *)
(* A value:  [of |-> "value", shape, bounds, fields]                        *)
(*   bounds  the `ser_bound` attributes: "ok", "bare"                       *)
(*   fields  [is |-> "plain", tags]: the `ser_with` attributes on each:     *)
(*           "ok", "bare", "two"                                            *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets

Kinds == {"pure_copy", "pos_tracking", "ptr_offset", "complete"}
Needs(kind) == CASE kind = "pure_copy" -> {"storage"}
                 [] kind \in {"pos_tracking", "ptr_offset"} -> {"storage", "mapping"}
                 [] kind = "complete" -> {"storage", "mapping", "ptrs"}
                 [] OTHER -> {"storage"}
Malformed == {"bare", "two"}

Kind(d) == IF d.types = <<>> THEN "" ELSE d.types[1]
Required(d) == Needs(Kind(d))
(* the fields with a tag of role r (the malformed ones are of a storage) *)
IsTag(r, t) == t = r \/ (r = "storage" /\ t \in Malformed)
Tagged(d, r) == {i \in DOMAIN d.fields : \E k \in DOMAIN d.fields[i].tags : IsTag(r, d.fields[i].tags[k])}
Twice(d, r) == \E i \in DOMAIN d.fields :
                  Cardinality({k \in DOMAIN d.fields[i].tags : IsTag(r, d.fields[i].tags[k])}) > 1
AnyTag(d, S) == \E i \in DOMAIN d.fields : \E k \in DOMAIN d.fields[i].tags : d.fields[i].tags[k] \in S

BrokenSerializer(d) ==
       (IF d.shape = "named" THEN {} ELSE {"shape"})
  \cup (IF Len(d.types) = 0 THEN {"no type"} ELSE {})
  \cup (IF Len(d.types) > 1 THEN {"several types"} ELSE {})
  \cup (IF Len(d.types) > 0 /\ d.types[1] \notin Kinds THEN {"unknown type"} ELSE {})
  \cup {"missing: " \o r : r \in {x \in Required(d) : Tagged(d, x) = {}}}
  \cup {"on several fields: " \o r : r \in {x \in Required(d) : Cardinality(Tagged(d, x)) > 1}}
  \cup {"twice on a field: " \o r : r \in {x \in Required(d) : Twice(d, x)}}
  \cup (IF AnyTag(d, Malformed) THEN {"malformed tag"} ELSE {})
BrokenValue(d) ==
       (IF d.shape = "union" THEN {"shape"} ELSE {})
  \cup (IF Len(d.bounds) > 1 THEN {"several bounds"} ELSE {})
  \cup (IF \E k \in DOMAIN d.bounds : d.bounds[k] \in Malformed THEN {"malformed bound"} ELSE {})
  \cup (IF \E i \in DOMAIN d.fields : Len(d.fields[i].tags) > 1 THEN {"several proxies"} ELSE {})
  \cup (IF AnyTag(d, Malformed) THEN {"malformed tag"} ELSE {})
Broken(d) == IF d.of = "serializer" THEN BrokenSerializer(d) ELSE BrokenValue(d)
WellFormed(d) == Broken(d) = {}

(* The field that plays role r, 0 if none has to *)
Field(d, r) == IF r \in Required(d) /\ Tagged(d, r) # {} THEN CHOOSE i \in Tagged(d, r) : TRUE ELSE 0
Roles(d) == IF d.of = "serializer" THEN [r \in {"storage", "mapping", "ptrs"} |-> Field(d, r)] ELSE <<>>
=============================================================================
