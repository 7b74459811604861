------------------------------------- MODULE Deep -------------------------------------
(***************************************************************************)
(* Instances that grow: a piece is repeated at the front and its partner   *)
(* at the back, doubling from step to step.  However far a text grows, the *)
(* loader has to come to a verdict, and an unsupported instance is kept.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT MaxLog          \* up to 2^MaxLog repetitions

\* kept: TRUE if the text is a well-formed unsupported instance
S(name, pre, open, mid, close, post, kept) == [name |-> name, pre |-> pre, open |-> open, mid |-> mid, close |-> close, post |-> post, kept |-> kept]
Shapes == <<
  S("lists in lists", "IFCOPQ(", "(", "1", ")", ")", TRUE),
  S("lists in lists, unequal", "IFCOPQ(", "(", "1", ",2)", ")", TRUE),
  S("typed values in typed values", "IFCOPQ(", "IFCX(", "$", ")", ")", TRUE),
  S("attributes", "IFCOPQ(", "$,", "*", "", ")", TRUE),
  S("references", "IFCOPQ((", "#1,", "#1", "", "))", TRUE),
  S("delimiters in a text", "IFCOPQ('", "(,;#", "", ")", "')", TRUE),
  S("apostrophes in a text", "IFCOPQ('", "''", "", "", "')", TRUE),
  S("texts", "IFCOPQ(", "'a;',", "''", "", ")", TRUE),
  S("digits", "IFCOPQ(", "7", "0.", "3", ")", TRUE),
  S("keyword", "IFCOPQ", "X", "Y", "", "(1)", TRUE),
  S("commas", "IFCOPQ(", "(),", "()", "", ")", TRUE),
  S("lists in a wall", "IFCWALL(", "(", "1", ")", ")", TRUE),
  S("lists in a point", "IFCCARTESIANPOINT(", "(", "1.", ")", ")", FALSE),
  S("typed values in a property", "IFCPROPERTYSINGLEVALUE('a',$,", "IFCLABEL(", "'a'", ")", ",$)", FALSE),
  S("lists that do not close", "IFCOPQ(", "(", "1", "", ")", FALSE),
  S("lists closed too often", "IFCOPQ(", "", "1", ")", ")", FALSE),
  S("texts that do not close", "IFCOPQ(", "',", "", "", "')", FALSE),
  S("dots", "IFCOPQ(", ".", "T", ".", ")", FALSE),
  S("exponents", "IFCDIRECTION((1.,", "1.E", "5", "", "))", FALSE),
  S("digits of a number", "IFCDIRECTION((1.,", "7", "0.", "3", "))", FALSE),
  S("statements in a statement", "IFCOPQ(", "#7=IFCX(", "1", ");", ")", FALSE),
  S("comments that do not close", "IFCOPQ(", "/*", "1", "", ")", FALSE),
  S("comments in comments", "IFCOPQ(", "/*", "1", "*/", ")", FALSE),
  S("directives", "IFCMATERIAL('", "\\X2\\00", "", "C4\\X0\\", "',$,$)", FALSE),
  S("quotes in a keyword", "IFC", "'", "A", "'", "(1)", FALSE) >>

VARIABLES shape, log, front, back
vars == << shape, log, front, back >>
Init == shape \in DOMAIN Shapes /\ log = 0 /\ front = Shapes[shape].open /\ back = Shapes[shape].close
Grow == log < MaxLog /\ log' = log + 1 /\ front' = front \o front /\ back' = back \o back /\ UNCHANGED shape
Spec == Init /\ [][Grow]_vars

Even == Len(front) = Len(Shapes[shape].open) * 2 ^ log /\ Len(back) = Len(Shapes[shape].close) * 2 ^ log
Emit == PrintT("@@" \o ToJson([name |-> Shapes[shape].name, times |-> 2 ^ log, kept |-> Shapes[shape].kept,
                               text |-> Shapes[shape].pre \o front \o Shapes[shape].mid \o back \o Shapes[shape].post]))
=============================================================================
