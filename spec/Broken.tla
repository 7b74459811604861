--------------------------------- MODULE Broken ---------------------------------
(***************************************************************************)
(* Well-formed files from which the end is cut off, structural elements    *)
(* are missing, or to which text is added outside of the exchange          *)
(* structure.  All of them must be rejected.                               *)
(***************************************************************************)
EXTENDS Alts, Json

CONSTANTS MaxDrop       \* structural tokens missing at the same time

(* one instance of every supported entity *)
InstOf(e) ==
  LET ps == TLCEval([j \in DOMAIN Entities[e].f |-> Alts(Entities[e].f[j], j, e, 1)[1]]) IN
  TLCEval("#" \o ToString(100 + e) \o "=" \o InstText(Entities[e].kw, ps) \o ";\n")

(* s: text of a chunk; st: a structural token, whose absence breaks the file *)
K(s) == [s |-> s, st |-> TRUE]
XT(s) == [s |-> s, st |-> FALSE]

HeadChunks == TLCEval(
 << K("ISO-10303-21"), K(";"), XT("\n"), K("HEADER"), K(";"), XT("\n"),
    K("FILE_DESCRIPTION"), K("("), K("('ViewDefinition [A, B]')"), K(","), K("'2;1'"), K(")"), K(";"), XT("\n"),
    K("FILE_NAME"), K("("), K("'f'"), K(","), K("'2021-03-04T05:06:07'"), K(","), K("('a','b')"), K(","),
    K("('o')"), K(","), K("'p'"), K(","), K("'s'"), K(","), K("''"), K(")"), K(";"), XT("\n"),
    K("FILE_SCHEMA"), K("("), K("('IFC4')"), K(")"), K(";"), XT("\n"),
    K("ENDSEC"), K(";"), XT("\n"), K("DATA"), K(";"), XT("\n") >>)
TailChunks == TLCEval(<< K("ENDSEC"), K(";"), XT("\n"), K("END-ISO-10303-21"), K(";"), XT("\n") >>)
Mid(k) == IF k = 1 THEN << XT("#1=IFCMONETARYUNIT('x');\n") >>
  ELSE IF k = 2 THEN << XT("#1=IFCX('a;b',/* c */(1,2));\n"), XT("#2= IFCCARTESIANPOINT((0.,1.,2.));\n"), XT("/* e */#3=IFCAXIS2PLACEMENT3D(#2,$,$);\n") >>
  ELSE << XT("#1=IFCOPAQUE(1);\n") >> \o [e \in DOMAIN Entities |-> XT(InstOf(e))]

ChunksOf(k) == TLCEval(HeadChunks \o Mid(k) \o TailChunks)

Junk == << "x", ";", "#9=IFCX();", "ISO-10303-21;", "HEADER;", "DATA;", "ENDSEC;", "END-ISO-10303-21;", "'", "/* open", "*/", "$", "\\", "0" >>

VARIABLES k,        \* which base file
          mode,     \* "whole", "cut", "drop", "before", "after"
          file,     \* the chunks that are left
          n,        \* last dropped token (drop), junk
          lost,     \* characters cut off
          gone      \* dropped tokens
vars == <<k, mode, file, n, lost, gone>>

Init == /\ k \in 1..3 /\ gone = {} /\ lost = 0
        /\ file = ChunksOf(k)
        /\ \/ mode \in {"whole", "cut", "drop"} /\ n = 0
           \/ mode \in {"before", "after"} /\ n \in DOMAIN Junk

(* the end disappears character by character *)
Cut == /\ mode = "cut" /\ Len(file) > 0
       /\ LET m == Len(file)
              t == file[m].s IN
          file' = IF Len(t) = 1 THEN SubSeq(file, 1, m - 1)
                  ELSE [file EXCEPT ![m].s = SubSeq(t, 1, Len(t) - 1)]
       /\ lost' = lost + 1
       /\ UNCHANGED <<k, mode, n, gone>>
(* a structural element disappears *)
Drop == /\ mode = "drop" /\ k = 2 /\ Cardinality(gone) < MaxDrop
        /\ \E i \in (n + 1)..Len(file) : file[i].st /\ n' = i /\ gone' = gone \cup {i} /\ file' = [file EXCEPT ![i].s = ""]
        /\ UNCHANGED <<k, mode, lost>>
Next == Cut \/ Drop
Spec == Init /\ [][Next]_vars

(* only the line break after the end marker may be missing *)
Complete == mode = "whole" \/ (mode = "cut" /\ lost <= 1) \/ (mode = "drop" /\ gone = {})
Verdict == IF Complete THEN "accepted" ELSE "rejected"

(* a file is accepted only if it is intact up to its last token *)
OnlyIntact == Verdict = "accepted" =>
  gone = {} /\ mode \notin {"before", "after"} /\ Len(file) >= Len(HeadChunks) + 5 /\ file[Len(file) - (1 - lost)] = K(";")

Emit == PrintT("@@" \o ToJson(
  [k |-> k, mode |-> mode, v |-> Verdict, lost |-> lost, gone |-> gone,
   s |-> IF mode \in {"before", "after"} THEN Junk[n] ELSE "",
   chunks |-> IF mode = "whole" THEN [i \in DOMAIN file |-> file[i].s] ELSE <<>>]))
=============================================================================
