-------------------------------- MODULE IfcStep --------------------------------
(***************************************************************************)
(* Abstract syntax of STEP (ISO 10303-21) attribute values and instances,  *)
(* and their concrete text.  A value is a record with a tag t:             *)
(*   null, derived                  $ and *                                *)
(*   str   raw/txt                  text as written / as read by a user    *)
(*   int, real   v                  literal; the value is what it denotes  *)
(*   tok   v/c                      keyword as written / canonical keyword *)
(*   ref   v                        instance number                        *)
(*   list  v                        sequence of values                     *)
(*   typed n/c/v                    NAME(value), canonical name c          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, IfcSchema

Null    == [t |-> "null"]
Derived == [t |-> "derived"]
Str(s)  == [t |-> "str", raw |-> s, txt |-> s]
StrX(r, x) == [t |-> "str", raw |-> r, txt |-> x]
IntV(s) == [t |-> "int", v |-> s]
Real(s) == [t |-> "real", v |-> s]
Tok(s)  == [t |-> "tok", v |-> s, c |-> s]
TokX(s, c) == [t |-> "tok", v |-> s, c |-> c]
Ref(s)  == [t |-> "ref", v |-> s]
Lst(q)  == [t |-> "list", v |-> q]
Typed(n, c, v) == [t |-> "typed", n |-> n, c |-> c, v |-> v]

Join(q, sep) == LET forced == TLCEval(q) IN
                IF forced = << >> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o sep \o y, forced[1], Tail(forced))

(* Render with a separator between list items and attributes: "," or a     *)
(* comma surrounded by insignificant layout.                               *)
RECURSIVE RenderSep(_, _)
RenderSep(x, sep) ==
  CASE x.t = "null"    -> "$"
    [] x.t = "derived" -> "*"
    [] x.t = "str"     -> "'" \o x.raw \o "'"
    [] x.t \in {"int", "real", "tok"} -> x.v
    [] x.t = "ref"     -> "#" \o x.v
    [] x.t = "list"    -> "(" \o Join([i \in DOMAIN x.v |-> RenderSep(x.v[i], sep)], sep) \o ")"
    [] x.t = "typed"   -> x.n \o "(" \o RenderSep(x.v, sep) \o ")"
Render(x) == RenderSep(x, ",")

InstTextSep(kw, args, sep) ==
  kw \o "(" \o Join([i \in DOMAIN args |-> RenderSep(args[i], sep)], sep) \o ")"
InstText(kw, args) == InstTextSep(kw, args, ",")

-----------------------------------------------------------------------------
(* does a value fit an attribute declaration?  (used as a sanity invariant) *)
Elems(x) == { x.v[i] : i \in DOMAIN x.v }
Fits(x, a) ==
  \/ a.o /\ x.t \in {"null", "derived"}
  \/ a.k \in {"str", "guid"} /\ x.t = "str"
  \/ a.k \in {"int", "time"} /\ x.t = "int"
  \/ a.k = "real" /\ x.t = "real"
  \/ a.k \in {"enum", "bool", "dim"} /\ x.t = "tok" /\ \E i \in DOMAIN a.e : a.e[i] = x.c
  \/ a.k = "ref" /\ x.t = "ref"
  \/ a.k = "angle" /\ (x.t = "ref" \/ (x.t = "typed" /\ x.v.t = "real"))
  \/ a.k = "value" /\ x.t = "typed"
  \/ x.t = "list" /\
       \/ a.k = "strlist" /\ \A i \in DOMAIN x.v : x.v[i].t = "str"
       \/ a.k = "intlist" /\ \A i \in DOMAIN x.v : x.v[i].t = "int"
       \/ a.k = "reflist" /\ \A i \in DOMAIN x.v : x.v[i].t = "ref"
       \/ a.k = "vec2" /\ Len(x.v) = 2
       \/ a.k = "vec3" /\ Len(x.v) = 3
       \/ a.k = "vec2list" /\ \A i \in DOMAIN x.v : x.v[i].t = "list" /\ Len(x.v[i].v) = 2
       \/ a.k = "vec3list" /\ \A i \in DOMAIN x.v : x.v[i].t = "list" /\ Len(x.v[i].v) = 3

=============================================================================
