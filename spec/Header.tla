---------------------------------- MODULE Header ----------------------------------
(***************************************************************************)
(* File headers, chosen field by field from good and bad alternatives, and *)
(* what a reader has to make of them.  A header is accepted iff all of its *)
(* fields are interpretable.  Time stamps are kept in UTC.                 *)
(***************************************************************************)
EXTENDS IfcStep, Json

CONSTANTS MaxDev,       \* number of fields that deviate from the first alternative
          Grid          \* which part of the time grid ("none", "small", "full")

Ok(raw, exp) == [raw |-> raw, exp |-> exp, ok |-> TRUE]
No(raw)      == [raw |-> raw, exp |-> "", ok |-> FALSE]

V1(n, i) == [name |-> n, items |-> i]

-----------------------------------------------------------------------------
(* calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + DaysBefore(y, m - 1)
(* days since 1970-01-01 *)
YearDays(y) == 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
DayNumber(y, m, d) == YearDays(y) + DaysBefore(y, m) + (d - 1) - YearDays(1970)
ASSUME DayNumber(1970, 1, 1) = 0 /\ DayNumber(2000, 3, 1) = 11017 /\ DayNumber(0, 1, 1) = -719528

Floor(a, b) == IF a >= 0 THEN a \div b ELSE - ((- a + b - 1) \div b)

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)

(* t: [y, mo, d, h, mi, s]; z: zone [raw, min (offset in minutes), ok]; f: fraction *)
TimeText(t, z, f) == Pad4(t.y) \o "-" \o Pad2(t.mo) \o "-" \o Pad2(t.d) \o "T" \o Pad2(t.h) \o ":" \o Pad2(t.mi) \o ":" \o Pad2(t.s) \o f \o z.raw
Valid(t) == t.mo \in 1..12 /\ t.d \in 1..DaysIn(t.y, t.mo) /\ t.h < 24 /\ t.mi < 60 /\ t.s < 60

(* moment in UTC: day number and second of the day *)
Moment(t, z) ==
  LET sec == t.h * 3600 + t.mi * 60 + t.s - z.min * 60
      day == DayNumber(t.y, t.mo, t.d) IN
  [day |-> day + Floor(sec, 86400), sec |-> sec - 86400 * Floor(sec, 86400)]

FirstDay == DayNumber(0, 1, 1)
LastDay  == DayNumber(9999, 12, 31)
(* a time stamp whose UTC form has no four-digit year cannot be kept *)
TimeAlt(t, z, f) ==
  IF ~ Valid(t) \/ ~ z.ok \/ Moment(t, z).day < FirstDay \/ Moment(t, z).day > LastDay
  THEN No("'" \o TimeText(t, z, f) \o "'")
  ELSE Ok("'" \o TimeText(t, z, f) \o "'", Moment(t, z))

Tm(y, mo, d, h, mi, s) == [y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s]
Zn(raw, min, ok) == [raw |-> raw, min |-> min, ok |-> ok]
NoZone == Zn("", 0, TRUE)
Zones == << NoZone, Zn("Z", 0, TRUE), Zn("+00:00", 0, TRUE), Zn("+01:00", 60, TRUE), Zn("-01:00", -60, TRUE), Zn("+05:30", 330, TRUE),
            Zn("-09:30", -570, TRUE), Zn("+14:00", 840, TRUE), Zn("-12:00", -720, TRUE), Zn("+1:00", 0, FALSE), Zn("+01", 0, FALSE), Zn(" CET", 0, FALSE) >>
Fracs == << "", ".5", ".999999", ".000" >>
Years  == IF Grid = "full" THEN << 0, 1, 4, 100, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 9996, 9999 >>
          ELSE << 0, 1970, 2000, 2023, 2024, 9999 >>
Dates == << <<1, 1>>, <<2, 28>>, <<2, 29>>, <<3, 1>>, <<12, 31>>, <<2, 30>>, <<4, 30>>, <<4, 31>>, <<6, 31>>, <<7, 31>>, <<8, 31>>, <<9, 31>>, <<11, 31>>, <<13, 1>>, <<0, 1>>, <<1, 0>>, <<10, 32>> >>
Clock == IF Grid = "full"
         THEN << <<0, 0, 0>>, <<23, 59, 59>>, <<12, 30, 15>>, <<0, 59, 59>>, <<23, 0, 0>>, <<1, 0, 0>>, <<24, 0, 0>>, <<12, 60, 0>>, <<12, 0, 61>> >>
         ELSE << <<0, 0, 0>>, <<23, 59, 59>>, <<12, 30, 15>>, <<24, 0, 0>>, <<12, 60, 0>>, <<12, 0, 61>> >>

-----------------------------------------------------------------------------
\* many items
Many(n, Item(_), Exp(_)) == LET q == [i \in 1..n |-> i] IN
  [raw |-> "(" \o FoldLeft(LAMBDA a, i : a \o "," \o Item(i), Item(1), Tail(q)) \o ")", exp |-> [i \in 1..n |-> Exp(i)], ok |-> TRUE]
Quoted(i) == "'n" \o ToString(i) \o "'"
Bare(i) == "n" \o ToString(i)
ViewN(i) == "'V" \o ToString(i) \o " [x, y" \o ToString(i) \o "]'"
ViewExp(i) == V1("V" \o ToString(i), << "x", "y" \o ToString(i) >>)
Doubling(n, t) == FoldLeft(LAMBDA x, j : x \o x, t, [j \in 1..n |-> j])
Items20 == FoldLeft(LAMBDA a, i : a \o ", i" \o ToString(i), "i0", [i \in 1..40 |-> i])

Text(s) == Ok("'" \o s \o "'", s)
Doubled(raw, s) == Ok("'" \o raw \o "'", s)
Texts == << Text("x"), Text(""), Text("a, (b); c"), Doubled("it''s", "it's"), Doubled("''''", "''"), Text("/* no comment */"),
            Text("<U+00C4> \\X2\\00C4\\X0\\"), Text("S:\\\\[IFC]\\\\f.ifc"), Text(Doubling(9, "long text; ")), Text(" 'x"), No("$x"), No("x"), No("'x"), No("*") >>
(* a lone apostrophe ends the text: drop that alternative *)
Good(q) == SelectSeq(q, LAMBDA r : r.raw # "' 'x'")
Lists == << Ok("('a')", <<"a">>), Ok("()", << >>), Ok("('')", <<"">>), Ok("('a','b')", <<"a", "b">>), Ok("('','')", <<"", "">>),
            Ok("('o''b','c, d','')", <<"o'b", "c, d", "">>), Ok("( 'a' ,\n'b' )", <<"a", "b">>), Many(50, Quoted, Bare), No("'a'"), No("$"), No("('a',)"), No("('a' 'b')"), No("(a)"), No("(,)") >>

Views == << Ok("('ViewDefinition [CoordinationView]')", << V1("ViewDefinition", <<"CoordinationView">>) >>),
  Ok("('')", << >>), Ok("()", << >>),
  Ok("('ViewDefinition [A, B]','Option [Drawing Scale: 100.000000]')", << V1("ViewDefinition", <<"A", "B">>), V1("Option", <<"Drawing Scale: 100.000000">>) >>),
  Ok("('ViewDefinition [, QuantityTakeOffAddOnView ,B ]')", << V1("ViewDefinition", <<"QuantityTakeOffAddOnView", "B">>) >>),
  Ok("('ViewDefinition []')", << V1("ViewDefinition", << >>) >>),
  Ok("( 'View_1.2-3:x [(GUID): Keep existing/(s)]' , 'V[a;b]' )", << V1("View_1.2-3:x", <<"(GUID): Keep existing/(s)">>), V1("V", <<"a;b">>) >>),
  Ok("('A [x]','A [x]','B [y, x, y]')", << V1("A", <<"x">>), V1("A", <<"x">>), V1("B", <<"y", "x", "y">>) >>),
  Many(30, ViewN, ViewExp), Ok("('W [" \o Items20 \o "]')", << V1("W", [i \in 1..41 |-> "i" \o ToString(i - 1)]) >>),
  No("('ViewDefinition')"), No("('ViewDefinition [A')"), No("'ViewDefinition [A]'"), No("$"), No("(ViewDefinition [A])"), No("('a b [A]')"), No("('A [x]',)") >>

Levels == << Ok("'2;1'", "2;1"), Ok("' 2;1 '", "2;1"), No("'1;1'"), No("'2;2'"), No("''"), No("$"), No("2;1"), No("'2;1"), No("'2;11'") >>

Sch(s, v) == Ok("('" \o s \o "')", <<v>>)
Spell(p) == << Sch(p \o "4", "IFC4"), Sch(p \o "4x2", "IFC4"), Sch(p \o "4X2", "IFC4"), Sch(p \o "2x3", "IFC2X3"), Sch(p \o "2X3", "IFC2X3"),
               Sch(p \o "4x3", "IFC4X3_ADD2"), Sch(p \o "4X3", "IFC4X3_ADD2"), Sch(p \o "4x3_ADD2", "IFC4X3_ADD2"), Sch(p \o "4X3_ADD2", "IFC4X3_ADD2") >>
Schemas == Spell("IFC") \o Spell("Ifc") \o Spell("ifc") \o
  << Ok("('IFC4','IFC2X3')", <<"IFC4", "IFC2X3">>), Ok("( 'IFC4X3_ADD2' , 'IFC4X3' , 'IFC4' )", <<"IFC4X3_ADD2", "IFC4X3_ADD2", "IFC4">>), Ok("()", << >>), Many(20, LAMBDA i : "'IFC4'", LAMBDA i : "IFC4"),
     No("('IFC5')"), No("('IFC')"), No("('')"), No("('IFC4X1')"), No("('IFC4X3_ADD1')"), No("('IFC4X3_ADD22')"), No("('IFC2X2')"), No("('IFC2')"), No("('IFC3')"),
     No("('iFC4')"), No("('IFX4')"), No("('AUTOMOTIVE_DESIGN')"), No("'IFC4'"), No("('IFC4',)"), No("('IFC4''')"), No("$") >>

TimeAlts == << TimeAlt(Tm(2021, 3, 4, 5, 6, 7), NoZone, ""), TimeAlt(Tm(2020, 2, 29, 23, 59, 59), Zn("-01:00", -60, TRUE), ""),
  TimeAlt(Tm(2000, 1, 1, 0, 0, 0), Zn("Z", 0, TRUE), ".25"), No("''"), No("$"), No("'yesterday'"), No("'2021-03-04'"), No("'2021-03-04T05:06'"),
  No("'05:06:07'"), No("'21-03-04T05:06:07'"), No("'2021-3-4T05:06:07'"), No("2021-03-04T05:06:07"), No("'2021-03-04T05:06:07''") >>

Names == << Ok("'f.ifc'", "f.ifc"), Ok("$", "") >> \o Good(Texts)
Fields == TLCEval(<< Views, Levels, Names, TimeAlts, Lists, Lists, Good(Texts), Good(Texts), Good(Texts), Schemas >>)
TimeField == 4

VARIABLES choice,   \* chosen alternative per field
          dev, time \* time: a time stamp from the grid instead of the alternative, or << >>
vars == <<choice, dev, time>>

Init == /\ choice = << >> /\ dev = 0 /\ time = << >>
Choose(n) == /\ Len(choice) < Len(Fields)
             /\ dev + (IF n = 1 THEN 0 ELSE 1) <= MaxDev
             /\ choice' = Append(choice, n) /\ dev' = dev + (IF n = 1 THEN 0 ELSE 1) /\ UNCHANGED time
FromGrid == /\ Grid # "none" /\ Len(choice) = Len(Fields) /\ dev = 0 /\ time = << >>
            /\ \E y \in DOMAIN Years, d \in DOMAIN Dates, c \in DOMAIN Clock, z \in DOMAIN Zones, f \in DOMAIN Fracs :
                 /\ (Grid = "small" => f = ((y + d + c + z) % Len(Fracs)) + 1)
                 /\ time' = << y, d, c, z, f >>
            /\ UNCHANGED <<choice, dev>>
Next == (\E n \in 1..(IF Len(choice) < Len(Fields) THEN Len(Fields[Len(choice) + 1]) ELSE 0) : Choose(n)) \/ FromGrid
Spec == Init /\ [][Next]_vars

Complete == Len(choice) = Len(Fields)
Alt(i) == IF i = TimeField /\ time # << >>
          THEN TimeAlt(Tm(Years[time[1]], Dates[time[2]][1], Dates[time[2]][2], Clock[time[3]][1], Clock[time[3]][2], Clock[time[3]][3]),
                       Zones[time[4]], Fracs[time[5]])
          ELSE Fields[i][choice[i]]
Accepted == \A i \in DOMAIN Fields : Alt(i).ok
HText == "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(" \o Alt(1).raw \o "," \o Alt(2).raw \o ");\nFILE_NAME("
        \o Alt(3).raw \o "," \o Alt(4).raw \o "," \o Alt(5).raw \o "," \o Alt(6).raw \o "," \o Alt(7).raw \o "," \o Alt(8).raw \o "," \o Alt(9).raw
        \o ");\nFILE_SCHEMA(" \o Alt(10).raw \o ");\nENDSEC;\n"

(* every accepted moment can be written with a four-digit year *)
InRange == Complete /\ Alt(TimeField).ok =>
  LET m == Alt(TimeField).exp IN m.day \in FirstDay..LastDay /\ m.sec \in 0..86399

Emit == Complete => PrintT("@@" \o ToJson([text |-> HText, ok |-> Accepted,
   exp |-> IF Accepted THEN << Alt(1).exp, Alt(2).exp, Alt(3).exp, Alt(4).exp, Alt(5).exp, Alt(6).exp, Alt(7).exp, Alt(8).exp, Alt(9).exp, Alt(10).exp >> ELSE << >>]))
=============================================================================
