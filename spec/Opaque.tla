--------------------------------- MODULE Opaque ---------------------------------
(***************************************************************************)
(* Instances the library does not support.  The machine writes the text of *)
(* one such instance piece by piece (a keyword, then attribute texts,      *)
(* possibly nested in lists) and places it among supported neighbours of   *)
(* which one refers to it.  The instance must be kept as it is.            *)
(***************************************************************************)
EXTENDS IfcStep, Json

CONSTANTS MaxPieces, MaxDepth

Keywords == << "IFCUNKNOWN", "IFCWAL", "IFCWALLX", "IFCWALL_", "IFCDIRECTION2", "IFCBUILDINGELEMENTPROXY", "!USER_DEFINED", "X",
               "IFCPROPERTYLISTVALUE", "IFCWALLSTANDARDCASETYPE" >>

(* attribute texts; (Open and Close nest) *)
Pieces == << "$", "*", "#20", "'plain'", "'a;b'", "''", "'it''s; #9=IFCWALL();'", "'/*'", "'*/ ENDSEC; END-ISO-10303-21;'", "'(('",
             "\"0F;F\"" , ".ITEM.", "-1.5E-3", "42", "/* note; ' */ 7", "IFCLABEL('x;')", "'\\X2\\00C4\\X0\\ <U+00C4>\\S\\;'",
             "8 /* \"'\" ; #1= */", "'<U+00E9><U+4E16>'", "\n 9\t" >>
(* a semicolon outside texts and comments ends an instance, also within a binary literal *)
Usable == { i \in DOMAIN Pieces : Pieces[i] # "\"0F;F\"" }

VARIABLES kw, text, depth, pieces, pos, done, fresh
vars == <<kw, text, depth, pieces, pos, done, fresh>>

Init == /\ kw \in DOMAIN Keywords /\ pos \in 1..3
        /\ text = Keywords[kw] \o "(" /\ depth = 1 /\ pieces = 0 /\ done = FALSE
        /\ fresh = TRUE       \* nothing since the last opening parenthesis

Sep == IF fresh THEN "" ELSE ","
Piece == /\ ~done /\ depth > 0 /\ pieces < MaxPieces
         /\ \E i \in Usable : text' = text \o Sep \o Pieces[i]
         /\ pieces' = pieces + 1 /\ fresh' = FALSE
         /\ UNCHANGED <<kw, depth, pos, done>>
Open  == /\ ~done /\ depth > 0 /\ depth < MaxDepth /\ pieces < MaxPieces
         /\ text' = text \o Sep \o "(" /\ depth' = depth + 1 /\ fresh' = TRUE /\ pieces' = pieces + 1
         /\ UNCHANGED <<kw, pos, done>>
Close == /\ ~done /\ depth > 0
         /\ text' = text \o ")" /\ depth' = depth - 1 /\ fresh' = FALSE /\ done' = (depth = 1)
         /\ UNCHANGED <<kw, pieces, pos>>
Next == Piece \/ Open \/ Close
Spec == Init /\ [][Next]_vars

Balanced == depth >= 0 /\ (done <=> depth = 0)

Wall == "IFCWALL('3vB2YO$MX4xv5uCqZZG05x',#20,'w;',$,$,$,$,$,$)"
Money == "IFCMONETARYUNIT('EUR')"
Stmts == << <<"20", text>>, <<"10", Wall>>, <<"30", Money>> >>
Order == CASE pos = 1 -> <<1, 2, 3>> [] pos = 2 -> <<2, 1, 3>> [] pos = 3 -> <<3, 2, 1>>

Emit == done => PrintT("@@" \o ToJson([file |-> [i \in 1..3 |-> Stmts[Order[i]]], text |-> text]))
=============================================================================
