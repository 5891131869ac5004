------------------------------ MODULE MCDefine ------------------------------
(***************************************************************************)
(* Writing a definition piece by piece, then giving it to the macro, which  *)
(* collects the tagged fields as the implementation does.  Explores every   *)
(* definition with at most one mistake; with GEN, prints them.              *)
(***************************************************************************)
EXTENDS Define, TLC, Json, IOUtils, SequencesExt

CONSTANTS LONGEST,   \* most fields
          MUTANT     \* "none", or a check of the macro to forget

VARIABLES phase, d, got
vars == <<phase, d, got>>

None == [storage |-> 0, mapping |-> 0, ptrs |-> 0]
Init == phase = "kind" /\ d = [of |-> "serializer", shape |-> "named", types |-> <<>>, bounds |-> <<>>, fields |-> <<>>] /\ got = None

(* Types and what else can be written in `ser_type` *)
TypeLists == {<<k>> : k \in Kinds} \cup {<<>>, <<"complete", "complete">>, <<"pure_copy", "complete">>, <<"pos_tracking", "pure_copy">>,
              <<"Complete">>, <<"purecopy">>, <<"">>, <<"bare">>, <<"text">>, <<"equals">>, <<"both">>, <<"nested">>, <<"path">>}
Shapes(of) == IF of = "serializer" THEN {"named", "tuple", "unit", "enum", "union"} ELSE {"named", "tuple", "enum", "union"}
BoundLists == {<<>>, <<"ok">>, <<"ok", "ok">>, <<"bare">>, <<"two">>}

TagLists(is) == CASE is = "storage" -> {<<>>, <<"storage">>, <<"storage", "storage">>, <<"bare">>, <<"two">>}
                  [] is \in {"mapping", "ptrs"} -> {<<>>, <<is>>, <<is, is>>}
                  [] is = "plain" -> {<<>>, <<"ok">>, <<"ok", "ok">>, <<"bare">>, <<"two">>}
                  [] OTHER -> {<<>>}
(* mistakes that more fields do not mend *)
Lasting(b) == b \ {"missing: storage", "missing: mapping", "missing: ptrs"}
Decoys(x) == {i \in DOMAIN x.fields : x.fields[i].tags = <<>>}
(* one kind of decoy for each role at most; nothing that the kind does not need *)
Sensible(x) ==
  /\ Cardinality(Lasting(Broken(x))) <= 1
  /\ x.of = "serializer" =>
       /\ Cardinality(Decoys(x)) <= 1
       /\ \A i \in DOMAIN x.fields : x.fields[i].tags # <<>> => x.fields[i].is \in Required(x)

Write ==
  /\ got' = got
  /\ \/ /\ phase = "kind" /\ phase' = "head"
        /\ \E of \in {"serializer", "value"} : \E s \in Shapes(of) : d' = [d EXCEPT !.of = of, !.shape = s]
     \/ /\ phase = "head" /\ phase' = "fields"
        /\ \/ d.of = "serializer" /\ \E t \in TypeLists : d' = [d EXCEPT !.types = t]
           \/ d.of = "value" /\ \E b \in BoundLists : d' = [d EXCEPT !.bounds = b]
        /\ Cardinality(Lasting(Broken(d'))) <= 1
     \/ /\ phase = "fields" /\ Len(d.fields) < LONGEST
        /\ d.shape \notin {"unit"}
        /\ phase' = "fields"
        /\ \E is \in IF d.of = "serializer" THEN {"storage", "mapping", "ptrs", "other"} ELSE {"plain"} :
           \E t \in TagLists(is) : d' = [d EXCEPT !.fields = Append(@, [is |-> is, tags |-> t])]
        /\ Sensible(d')

(* The macro: collects the fields that are tagged *)
Check(name) == MUTANT # name
Found(r) == SelectSeq([i \in DOMAIN d.fields |-> i], LAMBDA i : i \in Tagged(d, r))
Accepts ==
  IF d.of = "value"
  THEN /\ (Check("union") => d.shape # "union")
       /\ (Check("one bound") => Len(d.bounds) <= 1)
       /\ \A k \in DOMAIN d.bounds : d.bounds[k] = "ok"
       /\ \A i \in DOMAIN d.fields : /\ (Check("one proxy") => Len(d.fields[i].tags) <= 1)
                                      /\ \A k \in DOMAIN d.fields[i].tags : d.fields[i].tags[k] = "ok"
  ELSE /\ (Check("shape") => d.shape = "named")
       /\ (Check("one type") => Len(d.types) <= 1)
       /\ Len(d.types) >= 1
       /\ (Check("known type") => d.types[1] \in Kinds)
       /\ \A r \in Required(d) :
            /\ Len(Found(r)) >= 1
            /\ (Check("one field") => Len(Found(r)) = 1)
            /\ (Check("one tag") => ~Twice(d, r))
       /\ ~AnyTag(d, Malformed)
Use(r) == IF r \in Required(d) THEN IF MUTANT = "by type" THEN (CHOOSE i \in DOMAIN d.fields : d.fields[i].is = r /\ \A j \in DOMAIN d.fields : d.fields[j].is = r => i <= j)
                                    ELSE Found(r)[1] ELSE 0
Derive ==
  /\ phase = "fields"
  /\ phase' = IF Accepts THEN "accepted" ELSE "rejected"
  /\ got' = IF Accepts /\ d.of = "serializer" THEN [r \in {"storage", "mapping", "ptrs"} |-> Use(r)] ELSE None
  /\ UNCHANGED d
Next == Write \/ Derive
Spec == Init /\ [][Next]_vars

Sound == phase = "accepted" => WellFormed(d)
Total == phase = "rejected" => ~WellFormed(d)
(* every role has one field, the one that says so *)
Assigned == phase = "accepted" /\ d.of = "serializer" =>
               /\ got = Roles(d)
               /\ \A r \in Required(d) : got[r] # 0 /\ d.fields[got[r]].is = r

Rule(b) == IF b = {} THEN "" ELSE IF Cardinality(b) > 1 THEN "several" ELSE CHOOSE x \in b : TRUE
Emit ==
  IF "GEN" \in DOMAIN IOEnv /\ phase' \in {"accepted", "rejected"} /\ Cardinality(Broken(d)) <= 1
  THEN PrintT("T" \o ToJson([d |-> d, rule |-> Rule(Broken(d))]))
  ELSE TRUE
=============================================================================
