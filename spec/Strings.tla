---------------------------------- MODULE Strings ----------------------------------
(***************************************************************************)
(* Texts put together from pieces.  A piece has the form it takes in a     *)
(* file that is read (raw), the characters a user gets (val) and the form  *)
(* it takes in a file that is written (wr); api tells whether a user can   *)
(* give it through the interface.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json

CONSTANTS MaxLen, Src,     \* "file" or "api"
          Walk              \* one random piece at a time

Plain(s) == [raw |-> s, val |-> s, wr |-> s, api |-> TRUE, file |-> TRUE]
Code(c, u) == LET x == "\\X2\\" \o c \o "\\X0\\" IN [raw |-> x, val |-> u, wr |-> x, api |-> FALSE, file |-> TRUE]
Letter(c, u) == LET x == "\\X2\\" \o c \o "\\X0\\" IN [raw |-> u, val |-> u, wr |-> x, api |-> TRUE, file |-> TRUE]
Kept(s) == [raw |-> s, val |-> s, wr |-> s, api |-> FALSE, file |-> TRUE]
Apostrophe == [raw |-> "''", val |-> "'", wr |-> "''", api |-> TRUE, file |-> FALSE]

Umlauts == << <<"00C4", "<U+00C4>">>, <<"00E4", "<U+00E4>">>, <<"00D6", "<U+00D6>">>, <<"00F6", "<U+00F6>">>, <<"00DC", "<U+00DC>">>, <<"00FC", "<U+00FC>">>, <<"00DF", "<U+00DF>">> >>

Pieces == TLCEval(
  [i \in 1..7 |-> Code(Umlauts[i][1], Umlauts[i][2])] \o
  [i \in 1..7 |-> Letter(Umlauts[i][1], Umlauts[i][2])] \o
  << Plain("a"), Plain(" "), Plain(","), Plain(";"), Plain("("), Plain(");"), Plain("#1"), Plain("$"), Plain("*"), Plain("="), Plain("\""),
     Plain("/* c */"), Plain("/*"), Plain("*/"), Plain(".T."), Plain("X2"), Plain("00C4"), Plain("<U+20AC>"), Plain("<U+00E9>"), Plain("<U+0141>"), Plain("<U+4E2D>"), Plain("<U+00C3>"),
     Plain("A<U+0308>"), Plain("1.5E-3"), Plain("ENDSEC;"), Plain("{}"), Plain("%s"), Plain("<U+00A0>"), Plain("  "), Plain("\t"), Plain("<U+1F600>"), Plain("<U+1E9E>"), Plain("<U+FEFF>"), Plain("<U+2028>"), Plain("<U+0085>"), Plain("<U+00D8>"), Plain("<U+3000>"), Plain("A<U+030A>"),
     Plain("&amp;"), Plain("C:/x"), Plain("N"), Kept("\\\\"),
     Kept("\\X2\\00E9\\X0\\"), Kept("\\X2\\00C400D6\\X0\\"), Kept("\\X2\\00c4\\X0\\"), Kept("\\X\\E4"), Kept("\\S\\D"), Kept("\\X4\\0001F600\\X0\\"), Kept("\\P A\\"), Kept("\\N\\"),
     Apostrophe >>)

Usable(p) == IF Src = "file" THEN p.file ELSE p.api

VARIABLES text        \* indices of the pieces
Init == text = << >>
Usables == { i \in DOMAIN Pieces : Usable(Pieces[i]) }
Next == Len(text) < MaxLen /\ \E i \in (IF Walk THEN { RandomElement(Usables) } ELSE Usables) : text' = Append(text, i)
Spec == Init /\ [][Next]_text

Cat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
Raw == Cat([i \in DOMAIN text |-> Pieces[text[i]].raw])
Val == Cat([i \in DOMAIN text |-> Pieces[text[i]].val])
Wr  == Cat([i \in DOMAIN text |-> Pieces[text[i]].wr])
Loadable == \A i \in DOMAIN text : Pieces[text[i]] # Apostrophe

Emit == (~ Walk \/ Len(text) % 4 = 0) => PrintT("@@" \o ToJson([n |-> Len(text), raw |-> Raw, val |-> Val, wr |-> Wr, loadable |-> Loadable]))
=============================================================================
