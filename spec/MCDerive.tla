------------------------------ MODULE MCDerive ------------------------------
(***************************************************************************)
(* What derive makes of a definition, executed: a list of things to do, of  *)
(* which the first is replaced by its statements until leaves are reached.  *)
(***************************************************************************)
EXTENDS Derive, TLC, Json, IOUtils, Randomization

CONSTANTS SHAPE,  \* which definitions: "names", "types", "enums", "sizes", "random"
          MUTANT

VARIABLES ty, todo, log, stuck
vars == <<ty, todo, log, stuck>>

---------------------------------------------------------------------------
(* The macro *)
NameSet == {Name("a", FALSE), Name("b", FALSE), Name("serializer", FALSE), Name("type", TRUE), Name("match", TRUE),
            Name("val_a", FALSE), Name("val_0", FALSE), Name("val_serializer", FALSE), Name("c", TRUE), Name("__s", FALSE)}
Order == <<"__s", "a", "b", "c", "match", "serializer", "type", "val_0", "val_a", "val_serializer", "z">>
Rank(s) == CHOOSE i \in DOMAIN Order : Order[i] = s

(* identifiers that do not parse *)
Broken(id) == id \in {"val_r#type", "val_r#match", "val_r#c", "type", "match"}
Alias(style, nm, i) ==
  IF style = "tuple" THEN "val_" \o ToString(i - 1)
  ELSE IF MUTANT = "no alias" THEN nm.s
  ELSE IF MUTANT = "raw kept" /\ nm.raw THEN "val_r#" \o nm.s
  ELSE "val_" \o nm.s

Task(t, path, how) == [t |-> t, path |-> path, how |-> how]
Stuck == [t |-> Leaf("stuck"), path |-> <<>>, how |-> "self"]
How(t) == IF t.k \in With /\ MUTANT # "proxy forgotten" THEN "proxy" ELSE "self"

Sorted(is, key(_)) == IF MUTANT = "sorted" THEN SortSeq(is, LAMBDA x, y : key(x) < key(y)) ELSE is

(* struct: one statement per field *)
StructStmts(v, path) ==
  LET is == Sorted([i \in DOMAIN v.fs |-> i], LAMBDA i : IF v.style = "named" THEN Rank(v.fs[i].nm.s) ELSE i)
      js == IF MUTANT = "last forgotten" /\ Len(is) > 2 THEN SubSeq(is, 1, Len(is) - 1) ELSE is
  IN [x \in DOMAIN js |-> Task(v.fs[js[x]].ty, Append(path, js[x]), How(v.fs[js[x]].ty))]

(* enum: one arm per variant with fields, which binds every field to an alias; *)
(* an arm for the others if there are any                                    *)
EnumStmts(t, path) ==
  LET arms == {i \in DOMAIN t.vs : t.vs[i].style # "unit" /\ t.vs[i].fs # <<>>}
      wild == IF MUTANT = "no wildcard" THEN FALSE ELSE Cardinality(arms) < Len(t.vs)
      v == t.vs[t.n]
      bound == [i \in DOMAIN v.fs |-> Alias(v.style, v.fs[i].nm, i)]
      fine == /\ \A i, j \in DOMAIN bound : i # j => bound[i] # bound[j]
              /\ \A i \in DOMAIN bound : ~Broken(bound[i]) /\ bound[i] # "serializer"
      is == Sorted([i \in DOMAIN v.fs |-> i], LAMBDA i : IF v.style = "named" THEN Rank(v.fs[i].nm.s) ELSE i)
  IN IF arms = {} THEN <<>>
     ELSE IF MUTANT = "wildcard first" /\ wild THEN <<>>
     ELSE IF t.n \in arms
          THEN IF fine THEN [x \in DOMAIN is |-> Task(v.fs[is[x]].ty, Append(path, is[x]), How(v.fs[is[x]].ty))]
               ELSE <<Stuck>>
          ELSE IF wild THEN <<>> ELSE <<Stuck>>

Stmts(t, path) ==
  CASE t.k \in {"array", "vec"} ->
         LET n == IF MUTANT = "eights" /\ t.n > 32 THEN 8 * (t.n \div 8)
                  ELSE IF MUTANT = "needs drop" /\ t.k = "vec" /\ Elem(t).k = "copy" THEN 0 ELSE t.n
         IN [i \in 1..n |-> Task(Elem(t), Append(path, i), "self")]
    [] t.k = "option" -> IF t.n = 0 THEN <<>> ELSE <<Task(Elem(t), Append(path, 1), "self")>>
    [] t.k = "box" -> <<Task(Elem(t), Append(path, 1), "self")>>
    [] t.k = "enum" -> EnumStmts(t, path)
    [] OTHER -> StructStmts(t.vs[1], path)

---------------------------------------------------------------------------
(* Definitions *)
Wrapped(e) == {Many("option", n, e) : n \in {0, 1}} \cup {Many("array", n, e) : n \in {0, 1, 3}}
              \cup {Many("vec", n, e) : n \in {0, 1, 2}} \cup {Many("box", 1, e), Tuple(<<e>>), Tuple(<<e, Leaf("copy"), e>>)}
OwnLeaves == {Leaf(k) : k \in Own}
Leaves == {Leaf(k) : k \in Own \cup With}
Boxable(t) == t.k # "zst"  \* of lists and boxes of nothing, serializers see nothing
FieldTypes == Leaves \cup UNION {Wrapped(e) : e \in {Leaf("drop"), Leaf("copy")}}
Styled(style, nms, ts) == Variant(style, [i \in DOMAIN ts |-> Field(nms[i], ts[i])])
Struct(v, x) == Ty("struct", 1, <<v>>, x)
Enum(vs, n, x) == Ty("enum", n, vs, x)
ABC == <<Name("b", FALSE), Name("a", FALSE), Name("type", TRUE), Name("serializer", FALSE), Name("val_a", FALSE), Name("__s", FALSE)>>
Unit == Variant("unit", <<>>)

NamesDefs ==
  LET two(p) == Styled("named", p, <<Leaf("drop"), Leaf("with")>>)
      three(p) == Styled("named", Append(p, Name("z", FALSE)), <<Leaf("drop"), Leaf("foreign"), Leaf("copy")>>)
      pairs == {p \in NameSet \X NameSet : p[1].s # p[2].s}
  IN {Struct(two(p), "") : p \in pairs} \cup {Enum(<<two(p)>>, 1, "") : p \in pairs}
     \cup {Enum(<<Unit, three(p)>>, 2, "") : p \in {q \in pairs : q[1].raw \/ q[1].s = "serializer"}}
TypesDefs ==
  LET pairs == FieldTypes \X FieldTypes
  IN {Struct(Styled("named", ABC, p), "") : p \in pairs} \cup {Struct(Styled("tuple", ABC, p), "") : p \in pairs}
     \cup {Enum(<<Styled("tuple", ABC, p), Unit>>, 1, "") : p \in pairs}
EnumsDefs ==
  LET one == <<Leaf("drop")>>
      vs == {Unit, Variant("tuple", <<>>), Variant("named", <<>>), Styled("tuple", ABC, one), Styled("named", ABC, one),
             Styled("tuple", ABC, <<Leaf("with"), Leaf("copy")>>), Styled("named", ABC, <<Leaf("copy"), Leaf("drop")>>)}
      some == vs \cup (vs \X vs) \cup (vs \X vs \X vs)
      seqs == {<<v>> : v \in vs} \cup (vs \X vs) \cup (vs \X vs \X vs)
  IN UNION {{Enum(s, n, "") : n \in DOMAIN s} : s \in seqs}
     \cup {Struct(v, "") : v \in vs}
SizesDefs ==
  {Tuple([i \in 1..n |-> Leaf(k)]) : n \in 1..32, k \in Own}
  \cup {Tuple([i \in 1..n |-> Leaf(IF i % 2 = 0 THEN "drop" ELSE "copy")]) : n \in 1..32}
  \cup {Many("array", n, Leaf(k)) : n \in (0..40) \cup {63, 64, 65, 100, 255, 256, 300}, k \in Own}
  \cup {Many("array", n, Many("option", 1, Leaf("drop"))) : n \in {0, 1, 4, 33, 41}}
  \cup {Many("vec", n, Leaf(k)) : n \in (0..20) \cup {33, 64, 100}, k \in {"drop", "copy"}}
  \cup {Struct(Styled("tuple", [i \in 1..n |-> Name("", FALSE)], [i \in 1..n |-> Leaf(IF i % 3 = 0 THEN "with" ELSE "copy")]), "")
          : n \in {3, 5, 8, 12, 13, 26, 27, 40}}
  \cup {Enum(<<Unit, Styled("tuple", [i \in 1..n |-> Name("", FALSE)], [i \in 1..n |-> Leaf(IF i % 3 = 0 THEN "with" ELSE "drop")])>>, 2, "")
          : n \in {3, 5, 8, 10, 11, 12, 13, 26, 27, 40}}

(* Anything, nested.  d: how deep; p: may be a field with a proxy *)
Pick(S) == RandomElement(S)
Extras == {"", "const", "life", "where", "bound", "doc", "cfg", "discriminant", "repr"}
RECURSIVE RandomType(_, _), RandomVariant(_, _)
RandomVariant(d, k) ==
  LET n == IF k = 0 THEN Pick(0..5) ELSE k
      style == Pick({"named", "tuple", "tuple", "named", "unit"})
      perm == LET RECURSIVE pick(_, _)
                  pick(S, m) == IF m = 0 THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o pick(S \ {x}, m - 1)
              IN pick(NameSet, n)
      ts == LET RECURSIVE make(_)
                make(m) == IF m = 0 THEN <<>> ELSE <<RandomType(d - 1, TRUE)>> \o make(m - 1)
            IN make(n)
  IN IF style = "unit" THEN Unit ELSE Styled(style, perm, ts)
RandomType(d, p) ==
  LET k == IF d <= 0 THEN "leaf" ELSE Pick({"leaf", "array", "vec", "option", "box", "tuple", "struct", "enum"})
      x == Pick(Extras)
  IN CASE k = "leaf" -> Leaf(Pick(IF p THEN Own \cup With ELSE Own))
       [] k = "tuple" -> LET n == Pick(1..5)
                             RECURSIVE make(_)
                             make(m) == IF m = 0 THEN <<>> ELSE <<RandomType(d - 1, FALSE)>> \o make(m - 1)
                         IN Tuple(make(n))
       [] k = "struct" -> LET v == RandomVariant(d, 0) IN Struct(v, x)
       [] k = "enum" -> LET n == Pick(1..4)
                            RECURSIVE make(_)
                            make(m) == IF m = 0 THEN <<>> ELSE <<RandomVariant(d, 0)>> \o make(m - 1)
                            vs == make(n)
                            act == Pick(1..n)
                        IN Enum(vs, act, x)
       [] k = "array" -> LET n == Pick(0..4) e == RandomType(d - 1, FALSE) IN Many("array", n, e)
       [] OTHER -> LET n == Pick(0..3)
                       e == RandomType(d - 1, FALSE)
                       f == IF e.k = "zst" /\ k # "option" THEN Leaf("copy") ELSE e
                   IN Many(k, IF k = "option" THEN n % 2 ELSE IF k = "box" THEN 1 ELSE n, f)

Defs == CASE SHAPE = "names" -> NamesDefs [] SHAPE = "types" -> TypesDefs [] SHAPE = "enums" -> EnumsDefs
          [] SHAPE = "sizes" -> SizesDefs

---------------------------------------------------------------------------
Init == /\ IF SHAPE = "random" THEN ty = Leaf("none") ELSE ty \in Defs
        /\ todo = <<Task(ty, <<>>, "self")>> /\ log = <<>> /\ stuck = FALSE
(* (random types are made in a step, so that every simulated behaviour has its own) *)
Make == /\ ty.k = "none"
        /\ \E t \in {LET v == RandomType(3, FALSE) IN IF v.k \in Own THEN Struct(RandomVariant(3, 0), Pick(Extras)) ELSE v} :
             ty' = t /\ todo' = <<Task(t, <<>>, "self")>>
        /\ UNCHANGED <<log, stuck>>
Step == /\ ty.k # "none" /\ todo # <<>> /\ ~stuck
        /\ LET x == Head(todo) IN
           /\ stuck' = (x.t.k = "stuck")
           /\ IF IsLeaf(x.t) THEN log' = Append(log, [path |-> x.path, how |-> x.how]) /\ todo' = Tail(todo)
              ELSE log' = log /\ todo' = (IF stuck' THEN Tail(todo) ELSE Stmts(x.t, x.path) \o Tail(todo))
        /\ UNCHANGED ty
Next == Make \/ Step
Spec == Init /\ [][Next]_vars

Accepted == ~stuck
InOrder == ty.k # "none" => IsPrefix(log, Visits(ty, <<>>))
Once == ty.k # "none" /\ todo = <<>> /\ ~stuck =>
          /\ log = Visits(ty, <<>>)
          /\ \A i, j \in DOMAIN log : log[i].path = log[j].path => i = j

Emit == IF "GEN" \in DOMAIN IOEnv
        THEN todo = <<Task(ty, <<>>, "self")>> /\ ty.k # "none" => PrintT("T" \o ToJson(ty))
        ELSE TRUE
============================================================================
