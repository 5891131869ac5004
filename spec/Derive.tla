------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Type definitions, and which parts of a value are visited in which order *)
(* when it is serialized.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* A type.  k: kind.  n: length of an array or vec, 1 for an option that is *)
(* present, active variant of an enum.  vs: variants [style, fs]; anything  *)
(* that is no enum has one.  fs: fields [nm, ty].  extra: decorations of    *)
(* the definition that make no difference.                                 *)
Ty(k, n, vs, extra) == [k |-> k, n |-> n, vs |-> vs, extra |-> extra]
Variant(style, fs) == [style |-> style, fs |-> fs]
Name(s, raw) == [s |-> s, raw |-> raw]
Field(nm, ty) == [nm |-> nm, ty |-> ty]

(* Leaves say when they are visited.  drop, copy: with and without something *)
(* to drop; zst: of no size.  The others are fields with a proxy:           *)
(* foreign: of a type that cannot be serialized otherwise; withvec: a list   *)
Own == {"drop", "copy", "zst"}
With == {"with", "withgen", "foreign", "withvec"}
Leaf(k) == Ty(k, 0, <<>>, "")
IsLeaf(t) == t.k \in Own \cup With
Many(k, n, e) == Ty(k, n, <<Variant("tuple", <<Field(Name("", FALSE), e)>>)>>, "")
Tuple(ts) == Ty("tuple", 0, <<Variant("tuple", [i \in DOMAIN ts |-> Field(Name("", FALSE), ts[i])])>>, "")
Elem(t) == t.vs[1].fs[1].ty

(* What is visited, in order: the paths of the leaves *)
Visit(path, t) == [path |-> path, how |-> IF t.k \in With THEN "proxy" ELSE "self"]
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
RECURSIVE Visits(_, _)
Visits(t, path) ==
  CASE IsLeaf(t) -> <<Visit(path, t)>>
    [] t.k \in {"array", "vec"} -> Flat([i \in 1..t.n |-> Visits(Elem(t), Append(path, i))])
    [] t.k = "option" -> IF t.n = 0 THEN <<>> ELSE Visits(Elem(t), Append(path, 1))
    [] t.k = "box" -> Visits(Elem(t), Append(path, 1))
    [] t.k = "enum" -> Flat([i \in DOMAIN t.vs[t.n].fs |-> Visits(t.vs[t.n].fs[i].ty, Append(path, i))])
    [] OTHER -> Flat([i \in DOMAIN t.vs[1].fs |-> Visits(t.vs[1].fs[i].ty, Append(path, i))])

(* The same for recorded values: nodes [k, id, ch] with the numbers of the leaves *)
RECURSIVE Marks(_)
Marks(v) == IF v.k \in Own THEN <<v.id>>
            ELSE IF v.k \in With THEN <<-v.id>>
            ELSE Flat([i \in DOMAIN v.ch |-> Marks(v.ch[i])])
============================================================================
