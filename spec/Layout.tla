--------------------------------- MODULE Layout ---------------------------------
(***************************************************************************)
(* A file as a sequence of tokens; before some tokens insignificant layout *)
(* is allowed.  The machine writes the file token by token, choosing a     *)
(* filler for every gap: at most MaxDev gaps are not empty, or all gaps    *)
(* get the same filler.  What is loaded must not depend on the choices.    *)
(***************************************************************************)
EXTENDS Alts, Json

CONSTANTS MaxDev,      \* number of gaps with layout
          Frame        \* TRUE: vary the gaps outside the instance as well

Fillers == << " ", "\n", "\t\r\n  ", "/* comment */", " /* ' ; #1=IFCWALL(); */\n/**/ ", "\n/* ENDSEC; ( , ) = $ ** / */ " >>

\* long ones, each for one gap alone in files of a few entities
Double(n, t) == FoldLeft(LAMBDA x, j : x \o x, t, [j \in 1..n |-> j])
Long == TLCEval(<< "/*" \o Double(12, "a long comment; ' ") \o "*/", Double(13, " \n"), Double(10, "/* c */\n"), "/*" \o Double(10, "*") \o "/" >>)

(* tokens: [s |-> text, g |-> layout is allowed before it, o |-> gap outside of the instance] *)
TT(s)  == << [s |-> s, g |-> FALSE, o |-> FALSE] >>
GT(s) == << [s |-> s, g |-> TRUE, o |-> FALSE] >>
FT(s) == << [s |-> s, g |-> TRUE, o |-> TRUE] >>

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

RECURSIVE ValTokens(_)
ValTokens(v) ==
  IF v.t = "list"
  THEN TT("(") \o Cat([i \in DOMAIN v.v |-> (IF i = 1 THEN <<>> ELSE GT(",") \o GT("")) \o ValTokens(v.v[i])]) \o TT(")")
  ELSE TT(Render(v))

InstTokens(e, args) ==
  TT(Entities[e].kw \o "(")
  \o Cat([i \in DOMAIN args |-> (IF i = 1 THEN <<>> ELSE GT(",") \o GT("")) \o ValTokens(args[i])])
  \o TT(")") \o GT(";")

FileTokens(e, args) ==
  FT("ISO-10303-21;") \o FT("HEADER;")
  \o FT("FILE_DESCRIPTION(('ViewDefinition [CoordinationView]'),'2;1');")
  \o FT("FILE_NAME('f.ifc','2021-03-04T05:06:07',('a'),('o'),'p','s','z');")
  \o FT("FILE_SCHEMA(('IFC4'));") \o FT("ENDSEC;") \o FT("DATA;")
  \o FT("#1") \o FT("=") \o FT("IFCOPAQUE(1);")
  \o GT("#50") \o GT("=") \o GT("") \o InstTokens(e, args)
  \o GT("#60") \o FT("=") \o FT("IFCMONETARYUNIT('x');")
  \o FT("ENDSEC;") \o FT("END-ISO-10303-21;") \o FT("")

(* one list item of every kind is not enough for commas between items *)
BaseArgs(e, b) == [j \in DOMAIN Entities[e].f |-> LET a == Entities[e].f[j] IN
                     Alts(a, j, e, 1)[IF b = 1 THEN 1 ELSE Omitted(a)]]

VARIABLES ent, base, i, text, dev, mode
vars == <<ent, base, i, text, dev, mode>>

TokTab == TLCEval([e \in DOMAIN Entities |-> [b \in 1..2 |-> FileTokens(e, BaseArgs(e, b))]])
Tokens(e, b) == TokTab[e][b]

(* mode 0: individual gaps; mode f > 0: filler f in every gap *)
Init == /\ ent \in DOMAIN Entities /\ base \in {1, 2}
        /\ mode \in 0..Len(Fillers)
        /\ i = 0 /\ text = "" /\ dev = 0

Len1 == Len(Tokens(ent, base))

(* individual gaps: the next token, with or without layout *)
Put == /\ mode = 0 /\ dev < MaxDev /\ i < Len1
       /\ LET tk == Tokens(ent, base)[i + 1] IN
          /\ i' = i + 1
          /\ \/ text' = text \o tk.s /\ UNCHANGED dev
             \/ /\ tk.g /\ (tk.o => Frame /\ ent = 1)
                /\ \/ \E f \in DOMAIN Fillers : text' = text \o Fillers[f] \o tk.s
                   \/ /\ dev = 0 /\ ent % 12 = 1 /\ base = 1
                      /\ LET f == (i % Len(Long)) + 1 IN text' = text \o Long[f] \o tk.s
                /\ dev' = dev + 1
       /\ UNCHANGED <<ent, base, mode>>

(* all remaining tokens, with the filler of the mode in every gap *)
Rest == /\ mode > 0 \/ dev = MaxDev
        /\ i < Len1
        /\ text' = text \o Join([k \in 1..(Len1 - i) |->
                                  LET tk == Tokens(ent, base)[i + k] IN
                                  (IF tk.g /\ mode > 0 THEN Fillers[mode] ELSE "") \o tk.s], "")
        /\ i' = Len1
        /\ UNCHANGED <<ent, base, mode, dev>>
Next == Put \/ Rest
Spec == Init /\ [][Next]_vars

DevOK == dev <= MaxDev
Emit == i = Len1 =>
          PrintT("@@" \o ToJson([ty |-> Entities[ent].ty, base |-> base, plain |-> mode = 0 /\ dev = 0, text |-> text]))
=============================================================================
