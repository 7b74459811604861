---------------------------------- MODULE Faults ----------------------------------
(***************************************************************************)
(* A valid file to whose tokens faults happen one after another: tokens    *)
(* get lost, are doubled, replaced by or interspersed with other tokens,   *)
(* exchanged, or everything after one of them gets lost.  Whatever the     *)
(* result, a loader either accepts it (and can write and load what it has  *)
(* accepted) or reports an error.                                          *)
(***************************************************************************)
EXTENDS Alts, Json

CONSTANTS MaxFaults,
          Pick,               \* "all" faults, or "one" of each kind at random (for long chains)
          Slice, Slices       \* only this part of the pool (for a quick exploration)

RECURSIVE Toks(_), ListToks(_)
Toks(x) ==
  CASE x.t = "null"    -> << "$" >>
    [] x.t = "derived" -> << "*" >>
    [] x.t = "str"     -> << "'", x.raw, "'" >>
    [] x.t \in {"int", "real", "tok"} -> << x.v >>
    [] x.t = "ref"     -> << "#", x.v >>
    [] x.t = "list"    -> << "(" >> \o ListToks(x.v) \o << ")" >>
    [] x.t = "typed"   -> << x.n, "(" >> \o Toks(x.v) \o << ")" >>
ListToks(q) == IF q = << >> THEN << >>
               ELSE IF Len(q) = 1 THEN Toks(q[1])
               ELSE Toks(q[1]) \o << "," >> \o ListToks(Tail(q))

InstToks(e) == LET ps == TLCEval([j \in DOMAIN Entities[e].f |-> Alts(Entities[e].f[j], j, e, 3)[1]]) IN
               TLCEval(<< "#", "20", "=", Entities[e].kw, "(" >> \o ListToks(ps) \o << ")", ";" >>)

FileToks == << "ISO-10303-21", ";", "\n", "HEADER", ";", "\n",
    "FILE_DESCRIPTION", "(", "(", "'", "ViewDefinition", " ", "[", "A", ",", "B", "]", "'", ")", ",", "'", "2;1", "'", ")", ";", "\n",
    "FILE_NAME", "(", "'", "f", "'", ",", "'", "2021", "-", "03", "-", "04", "T", "05", ":", "06", ":", "07", "'", ",", "(", "'", "a", "'", ",", "'", "b", "'", ")", ",",
    "(", "'", "o", "'", ")", ",", "'", "p", "'", ",", "'", "s", "'", ",", "''", ")", ";", "\n",
    "FILE_SCHEMA", "(", "(", "'", "IFC", "4", "'", ")", ")", ";", "\n",
    "ENDSEC", ";", "\n", "DATA", ";", "\n",
    "#", "1", "=", "IFCOPAQUE", "(", "'", "x;y", "'", ")", ";", "\n", "/*", " c ", "*/",
    "#", "2", "= ", "IFCCARTESIANPOINT", "(", "(", "0.", ",", "1.", ")", ")", ";", "\n",
    "#", "3", "=", "IFCAXIS2PLACEMENT2D", "(", "#", "2", ",", "$", ")", ";", "\n",
    "ENDSEC", ";", "\n", "END-ISO-10303-21", ";", "\n" >>

Pool == << "", "(", ")", ",", ";", "'", "''", "$", "*", "#", "#1", "#20", "#99", "#0", "#-1", "#18446744073709551615", "#18446744073709551616",
    "-", "+", ".", ".T.", ".X.", "..", "1", "1.", "-1", "0", "1E400", "1.E-400", "1.E", "99999999999999999999999999", "-9223372036854775808",
    "9223372036854775807", "-9223372036854775809", "8210298412799", "8210266876800", "nan", "inf", "-inf", "1e5", "0x10", "\\", "\\X2\\", "\\X2\\00C4\\X0\\", "\\X2\\00C4", "\\X2\\ZZZZ\\X0\\",
    "\\X\\E4", "\\S\\", "/*", "*/", "/* c */", "=", "IFCX", "IFCWALL", "IFCREAL(1.)", "IFCLABEL('')", "IFCREAL()", "()", "(())", "((((((((((((((((((((((((((((((((", "ENDSEC;", "DATA;",
    "<U+00C4>", "<U+0000>", "<U+FEFF>", "<U+20AC>", "\n", "\t", " ", "\r", "\"", "!", "@1", "&SCOPE", "'<U+00C4>", "0000", "9999", "24", "60", "+01:00", "2;1", "[", "]", "4X3_ADD2" >>
InSlice(i, j) == (i + j) % Slices = Slice

VARIABLES base, toks, faults, touched
vars == <<base, toks, faults, touched>>

Init == /\ base \in 0..Len(Entities)
        /\ toks = IF base = 0 THEN FileToks ELSE InstToks(base)
        /\ faults = 0 /\ touched = ""

Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Lose(i)    == toks' = Without(toks, i) /\ touched' = "lost"
Double(i)  == toks' = SubSeq(toks, 1, i) \o SubSeq(toks, i, Len(toks)) /\ touched' = "doubled"
Swap(i)    == i < Len(toks) /\ toks' = [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]] /\ touched' = "swapped"
SwapFar(i, j) == InSlice(i, j) /\ j > i + 1 /\ j <= Len(toks) /\ toks' = [toks EXCEPT ![i] = toks[j], ![j] = toks[i]] /\ touched' = "exchanged"
CutAfter(i) == toks' = SubSeq(toks, 1, i) /\ touched' = "cut"
Repl(i, j) == InSlice(i, j) /\ toks' = [toks EXCEPT ![i] = Pool[j]] /\ touched' = "replaced"
Ins(i, j)  == InSlice(i, j) /\ toks' = SubSeq(toks, 1, i) \o << Pool[j] >> \o SubSeq(toks, i + 1, Len(toks)) /\ touched' = "inserted"

From(S0) == IF Pick = "one" THEN { RandomElement(S0) } ELSE S0
Next == /\ toks # << >>
        /\ faults < MaxFaults
        /\ faults' = faults + 1 /\ UNCHANGED base
        /\ \/ \E i \in From(DOMAIN toks) : Lose(i)
           \/ \E i \in From(DOMAIN toks) : Double(i)
           \/ \E i \in From(DOMAIN toks) : Swap(i)
           \/ \E i \in From(DOMAIN toks) : CutAfter(i) /\ (Pick = "one" => i > (3 * Len(toks)) \div 4)
           \/ \E i \in From(DOMAIN toks) : \E j \in From(DOMAIN Pool) : Repl(i, j)
           \/ \E i \in From(DOMAIN toks) : \E j \in From(DOMAIN Pool) : Ins(i, j)
           \/ \E i \in From(DOMAIN toks) : \E j \in {i + 2, i + 4, i + 7} : SwapFar(i, j)
Spec == Init /\ [][Next]_vars

(* a single fault changes the number of tokens by at most one, except for the loss of the rest *)
Bounded == Len(toks) <= Len(IF base = 0 THEN FileToks ELSE InstToks(base)) + MaxFaults
Emit == PrintT("@@" \o ToJson([base |-> base, fault |-> touched, n |-> faults, s |-> Join(toks, "")]))
=============================================================================
