---------------------------------- MODULE Numbers ----------------------------------
(***************************************************************************)
(* Real literals written digit by digit: sign, integer part, point,        *)
(* fraction, exponent; and the decimal number (sign, significant digits,   *)
(* power of ten) each of them denotes.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Digits,       \* digits to choose from
          MaxInt, MaxFrac,
          Walk,         \* one random digit at a time
          Least,        \* fewest digits of a finished literal
          Exps          \* exponents to choose from; 0 = none

AllDigits == 0..9
SomeDigits == {0, 1, 9}
MoreDigits == {0, 1, 5, 9}
EdgeDigits == {0, 9}
ExpsSmall == { 0, 3, -3, 10, -10 }
ExpsWide  == { 0, 1, -1, 5, -5, 12, -12, 22, -22, 100, -100, 280, -280 }

VARIABLES neg, ip, fp,  \* digits of the integer part and of the fraction
          stage         \* "sign", "int", "frac", "done"
VARIABLE ex
vars == <<neg, ip, fp, ex, stage>>

Init == neg = FALSE /\ ip = << >> /\ fp = << >> /\ ex = 0 /\ stage = "sign"
Sign == stage = "sign" /\ neg' \in BOOLEAN /\ stage' = "int" /\ UNCHANGED <<ip, fp, ex>>
IntDigit == stage = "int" /\ Len(ip) < MaxInt /\ \E d \in (IF Walk THEN { RandomElement(Digits) } ELSE Digits) : ip' = Append(ip, d) /\ UNCHANGED <<neg, fp, ex, stage>>
Point == stage = "int" /\ ip # << >> /\ Len(ip) + MaxFrac >= Least /\ stage' = "frac" /\ UNCHANGED <<neg, ip, fp, ex>>
FracDigit == stage = "frac" /\ Len(fp) < MaxFrac /\ \E d \in (IF Walk THEN { RandomElement(Digits) } ELSE Digits) : fp' = Append(fp, d) /\ UNCHANGED <<neg, ip, ex, stage>>
Done == stage = "frac" /\ Len(ip) + Len(fp) >= Least /\ ex' \in (IF Walk THEN { RandomElement(Exps) } ELSE Exps) /\ stage' = "done" /\ UNCHANGED <<neg, ip, fp>>
Next == Sign \/ IntDigit \/ Point \/ FracDigit \/ Done
Spec == Init /\ [][Next]_vars

(* normal form: digits without leading and trailing zeros, times ten to the power of p *)
RECURSIVE NoLead(_), NoTrail(_)
NoLead(q) == IF q # << >> /\ Head(q) = 0 THEN NoLead(Tail(q)) ELSE q
NoTrail(q)  == IF q # << >> /\ q[Len(q)] = 0 THEN NoTrail(SubSeq(q, 1, Len(q) - 1)) ELSE q
All == ip \o fp
Norm == LET sig == NoLead(NoTrail(All))
            drop == Len(All) - Len(NoTrail(All)) IN
        IF sig = << >> THEN [neg |-> FALSE, sig |-> << >>, p |-> 0]
        ELSE [neg |-> neg, sig |-> sig, p |-> ex - Len(fp) + drop]

Str(q) == FoldLeft(LAMBDA a, b : a \o ToString(b), "", q)
Literal == (IF neg THEN "-" ELSE "") \o Str(ip) \o "." \o Str(fp) \o
           (IF ex = 0 THEN "" ELSE "E" \o ToString(ex))

NormOK == stage = "done" => LET m == Norm IN m.sig = << >> \/ (m.sig[1] # 0 /\ m.sig[Len(m.sig)] # 0)
Emit == stage = "done" => PrintT("@@" \o ToJson([lit |-> Literal, neg |-> Norm.neg, sig |-> Str(Norm.sig), p |-> Norm.p]))
=============================================================================
