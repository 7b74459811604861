----------------------------------- MODULE Enums -----------------------------------
(***************************************************************************)
(* Every attribute of an enumeration type of every entity with every known *)
(* item, with near misses of its items and with items of other             *)
(* enumerations.  A known item makes a typed instance, written with the    *)
(* canonical keyword; anything else must leave the instance unsupported.   *)
(***************************************************************************)
EXTENDS Alts, EnumApi, Json

CONSTANTS Deep          \* near misses of every item, not only of some

EnumAttrs == { <<e, j>> \in (DOMAIN Entities) \X (1..20) :
                 /\ j \in DOMAIN Entities[e].f
                 /\ Entities[e].f[j].k \in {"enum", "bool", "dim"} }

Items(a) == { a.e[i] : i \in DOMAIN a.e }
BoolAlias == << <<".T.", ".TRUE.">>, <<".F.", ".FALSE.">>, <<".U.", ".UNKNOWN.">> >>
Canon(a, s) == IF s \in Items(a) THEN s
               ELSE IF a.k = "bool" /\ \E i \in DOMAIN BoolAlias : BoolAlias[i][1] = s
                    THEN (CHOOSE b \in { BoolAlias[i] : i \in DOMAIN BoolAlias } : b[1] = s)[2]
               ELSE ""

(* near misses of an item *)
Inner(s) == SubSeq(s, 2, Len(s) - 1)
Quote(s) == SubSeq(s, 1, 1)
Near(s) ==
  IF Len(s) < 3 THEN { s \o "0", "0" \o s, "-" \o s }     \* a dimension
  ELSE LET q == Quote(s) IN
       { q \o Inner(s) \o "X" \o q, q \o SubSeq(s, 2, Len(s) - 2) \o q, q \o SubSeq(s, 3, Len(s) - 1) \o q,
         q \o "X" \o Inner(s) \o q, Inner(s), q \o Inner(s) \o " " \o q, q \o " " \o Inner(s) \o q,
         IF q = "." THEN "'" \o Inner(s) \o "'" ELSE "." \o Inner(s) \o "." }
       \cup (IF q = "." THEN { q \o Inner(s), Inner(s) \o q, q \o Inner(s) \o q \o Inner(s) \o q } ELSE {})   \* a lone apostrophe would open a text
Foreign == { ".ZZZ.", ".movable.", ".Solidwall.", "..", "''", "7", "-1", "0", "()", ".T.", ".F.", ".TRUE.", ".NOTDEFINED.", ".USERDEFINED.", ".STANDARD.",
             ".AXIS4.", ".KILO.", ".METRE.", ".LENGTHUNIT.", ".PASCAL.", ".PARAPET.", ".AREA.", ".POSITIVE.", "'Body'", "'SweptSolid'", "'inch'", "4", "3", "#1", "1.", "$", "*" }

VARIABLES at, item
vars == <<at, item>>
Init == at \in EnumAttrs /\ item = ""
A == Entities[at[1]].f[at[2]]
Chosen(i) == Deep \/ (i + at[1] + at[2]) % 4 = 0
Next == /\ item = ""
        /\ item' \in Items(A) \cup (IF A.k = "bool" THEN { BoolAlias[i][1] : i \in DOMAIN BoolAlias } ELSE {}) \cup Foreign
                     \cup UNION { Near(A.e[i]) : i \in { k \in DOMAIN A.e : Chosen(k) } }
        /\ UNCHANGED at
Spec == Init /\ [][Next]_vars

(* $ and * are values of their own where they are allowed; a number fits an inherited dimension *)
Skip == item \in {"$", "*"} \/ (A.k = "dim" /\ A.o)

ArgText(j) == IF j = at[2] THEN item ELSE Render(Alts(Entities[at[1]].f[j], j, at[1], 3)[1])
InstanceText == Entities[at[1]].kw \o "(" \o Join([j \in DOMAIN Entities[at[1]].f |-> ArgText(j)], ",") \o ")"

(* no near miss is a known item of the same attribute by accident unless it is the item itself *)
KnownIff == item # "" => (Canon(A, item) # "" <=> item \in Items(A) \/ (A.k = "bool" /\ \E i \in DOMAIN BoolAlias : BoolAlias[i][1] = item))

(* keywords of the table are the items of the schema, and no two values share one *)
ASSUME \A i \in DOMAIN EnumTable : \A m, n \in DOMAIN EnumTable[i].items :
         m # n => EnumTable[i].items[m][2] # EnumTable[i].items[n][2] /\ EnumTable[i].items[m][1] # EnumTable[i].items[n][1]
ASSUME \A p \in EnumAttrs : LET a == Entities[p[1]].f[p[2]] IN a.k # "enum" \/
         \E i \in DOMAIN EnumTable : { EnumTable[i].items[m][2] : m \in DOMAIN EnumTable[i].items } = Items(a)

Emit == item # "" /\ ~ Skip => PrintT("@@" \o ToJson(
  [ty |-> Entities[at[1]].ty, j |-> at[2], name |-> A.n, item |-> item, canon |-> Canon(A, item), text |-> InstanceText]))
EmitTable == at = CHOOSE p \in EnumAttrs : TRUE
Table == (item = "" /\ EmitTable) => PrintT("@@" \o ToJson([table |-> EnumTable]))
=============================================================================
