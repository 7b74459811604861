--------------------------------- MODULE Loader ---------------------------------
(***************************************************************************)
(* Loading a file: the statements of the data section are read one after   *)
(* the other into the instance table, then every instance is verified in   *)
(* ascending order of the numbers, and the file is accepted or rejected.   *)
(*                                                                         *)
(* A statement is [id, ent, args, text]: its number (a decimal numeral),   *)
(* the index of its entity (0 = not supported, kept as an opaque text),    *)
(* its attribute values, and the text of an opaque instance.               *)
(***************************************************************************)
EXTENDS Alts, Json

VARIABLES file,      \* the statements in the order of the file
          nread,     \* how many have been read
          table,     \* sequence of statements read, ascending by number
          nver,      \* how many instances have been verified
          verdict    \* "reading", "verifying", "accepted", "rejected"
lvars == <<file, nread, table, nver, verdict>>

(* numeric order of decimal numerals without leading zeros *)
Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(a) THEN FALSE
                     ELSE LET x == Digit(SubSeq(a, i, i))
                              y == Digit(SubSeq(b, i, i)) IN
                          IF x # y THEN x < y ELSE LessFrom(a, b, i + 1)
NumLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, 1)

Insert(q, st) ==
  LET before == SelectSeq(q, LAMBDA x : NumLess(x.id, st.id))
      after  == SelectSeq(q, LAMBDA x : NumLess(st.id, x.id))
  IN before \o <<st>> \o after

Opaque(id, text) == [id |-> id, ent |-> 0, args |-> <<>>, text |-> text]
Stmt(id, ent, args) == [id |-> id, ent |-> ent, args |-> args, text |-> ""]

StmtText(s) == IF s.ent = 0 THEN s.text ELSE InstText(Entities[s.ent].kw, s.args)
TypeOf(s) == IF s.ent = 0 THEN "Dummy" ELSE Entities[s.ent].ty

-----------------------------------------------------------------------------
(* verification of one instance against a table *)
Lookup(tab, id) == { i \in DOMAIN tab : tab[i].id = id }

RefOK(tab, id, allowed) ==
  \E i \in DOMAIN tab : tab[i].id = id /\ (tab[i].ent = 0 \/ TypeOf(tab[i]) \in allowed)

ValOK(tab, v, allowed) ==
  CASE v.t = "ref"  -> RefOK(tab, v.v, allowed)
    [] v.t = "list" -> \A i \in DOMAIN v.v : v.v[i].t = "ref" => RefOK(tab, v.v[i].v, allowed)
    [] OTHER -> TRUE

InstOK(tab, s) ==
  s.ent = 0 \/ \A j \in DOMAIN s.args :
                 LET a == Entities[s.ent].f[j] IN a.t # {} => ValOK(tab, s.args[j], a.t)

-----------------------------------------------------------------------------
LInit == nread = 0 /\ table = <<>> /\ nver = 0 /\ verdict = "reading"

Read == /\ verdict = "reading" /\ nread < Len(file)
        /\ table' = Insert(table, file[nread + 1])
        /\ nread' = nread + 1
        /\ UNCHANGED <<file, nver, verdict>>

EndData == /\ verdict = "reading" /\ nread = Len(file)
           /\ verdict' = "verifying"
           /\ UNCHANGED <<file, nread, table, nver>>

Verify == /\ verdict = "verifying" /\ nver < Len(table)
          /\ IF InstOK(table, table[nver + 1])
             THEN nver' = nver + 1 /\ UNCHANGED verdict
             ELSE verdict' = "rejected" /\ UNCHANGED nver
          /\ UNCHANGED <<file, nread, table>>

Accept == /\ verdict = "verifying" /\ nver = Len(table)
          /\ verdict' = "accepted"
          /\ UNCHANGED <<file, nread, table, nver>>

LNext == Read \/ EndData \/ Verify \/ Accept

-----------------------------------------------------------------------------
(* properties of the machine *)
Ids(q) == { q[i].id : i \in DOMAIN q }

(* the table holds exactly the numbers read so far, ascending, each once *)
TableOK == /\ Ids(table) = Ids(SubSeq(file, 1, nread))
           /\ \A i \in 1..(Len(table) - 1) : NumLess(table[i].id, table[i + 1].id)
           /\ \A i \in DOMAIN table : \E k \in 1..nread : file[k] = table[i]

AllFit == \A i \in DOMAIN table : InstOK(table, table[i])

VerdictOK == /\ verdict = "accepted" => AllFit
             /\ verdict = "rejected" => ~AllFit

Done == verdict \in {"accepted", "rejected"}

Summary == [verdict |-> verdict,
            file  |-> [i \in DOMAIN file |-> << file[i].id, StmtText(file[i]) >>],
            table |-> [i \in DOMAIN table |-> [id |-> table[i].id, ty |-> TypeOf(table[i]),
                                               kw |-> IF table[i].ent = 0 THEN "" ELSE Entities[table[i].ent].kw,
                                               args |-> table[i].args, text |-> table[i].text]]]
=============================================================================
