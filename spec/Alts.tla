---------------------------------- MODULE Alts ----------------------------------
(***************************************************************************)
(* Representative values for every kind of attribute.  Values of different *)
(* attributes of one instance are pairwise different, so that exchanged    *)
(* attributes are visible.                                                 *)
(***************************************************************************)
EXTENDS IfcStep

ItemSeq(e, i) == << Tok(e[((i - 1) % Len(e)) + 1]), Tok(e[(i % Len(e)) + 1]), Tok(e[Len(e)]) >>
OptPart(a) == IF a.o THEN << Null, Derived >> ELSE << >>

N(i) == ToString(i)
RefTo(i, nopq) == Ref(N(((i - 1) % nopq) + 1))
X == "\\X2\\00C4\\X0\\"

Guids == << "0000000000000000000000", "3vB2YO$MX4xv5uCqZZG05x", "2XPyKWY018sA1ygZKgQPtU", "3$$$$$$$$$$$$$$$$$$$$$",
            "1_00000000000000000000" >>

(* long texts and lists *)
Long1  == "0123456789 (,);"
Long4  == Long1 \o Long1 \o Long1 \o Long1
Long20 == Long4 \o Long4 \o Long4 \o Long4 \o Long4
Many == 70

(* the alternatives for attribute a at position i of entity number n; references point to *)
(* the opaque instances #1..#nopq                                                         *)
Alts(a, i, n, nopq) ==
  CASE a.k = "guid" -> << Str(Guids[(n % Len(Guids)) + 1]), Str(Guids[((n + 1) % Len(Guids)) + 1]),
                          Str(Guids[((n + 2) % Len(Guids)) + 1]) >>
    [] a.k = "str"  -> << Str("s" \o N(i)) >> \o OptPart(a) \o
                       << Str(""), Str("a b,(c);/ #1 $ * = .T. \"q\" " \o N(i)), StrX(X \o "x" \o N(i), "<U+00C4>x" \o N(i)),
                          Str("\\S\\D\\X\\E4 " \o N(i)), Str(Long20 \o N(i)), Str("#1=IFCWALL();\\nENDSEC; /* " \o N(i)) >>
    [] a.k = "strlist" -> << Lst(<< Str("p" \o N(i)), Str("q" \o N(i)) >>) >> \o OptPart(a) \o
                       << Lst(<<>>), Lst(<< Str("one,") >>), Lst(<< Str("c"), Str("b"), Str("b"), Str("") >>),
                          Lst([j \in 1..Many |-> Str("e" \o N(j))]) >>
    [] a.k = "int"  -> << IntV(N(100 + i)) >> \o OptPart(a) \o << IntV("-" \o N(i)), IntV("0"), IntV("2147483647") >>
    [] a.k = "time" -> << IntV(N(1000000000 + i)) >> \o OptPart(a) \o << IntV("0"), IntV("-" \o N(86400 + i)), IntV("4102444800") >>
    [] a.k = "intlist" -> << Lst(<< IntV(N(i)), IntV("-" \o N(i + 1)), IntV("3") >>) >> \o OptPart(a) \o
                       << Lst(<<>>), Lst(<< IntV("0") >>), Lst(<< IntV("-12"), IntV("34"), IntV("56"), IntV("789000") >>),
                          Lst([j \in 1..Many |-> IntV(N(Many - j))]) >>
    [] a.k = "real" -> << Real(N(i) \o ".25") >> \o OptPart(a) \o
                       << Real("0."), Real("-" \o N(i) \o "."), Real("1.E-3"), Real("123456.7890625"), Real("2.5E3"), Real("1.5E+02"), Real("-0.1") >>
    [] a.k = "dim"  -> ItemSeq(a.e, 3) \o OptPart(a)
    [] a.k = "bool" -> << TokX(".T.", ".TRUE.") >> \o OptPart(a) \o
                       << TokX(".F.", ".FALSE."), TokX(".U.", ".UNKNOWN."), Tok(".TRUE."), Tok(".FALSE."), Tok(".UNKNOWN.") >>
    [] a.k = "enum" -> << ItemSeq(a.e, i)[1] >> \o OptPart(a) \o << ItemSeq(a.e, i)[2], ItemSeq(a.e, i)[3] >>
    [] a.k = "ref"  -> << RefTo(i, nopq) >> \o OptPart(a) \o << RefTo(i + 1, nopq) >>
    [] a.k = "reflist" -> << Lst(<< RefTo(i, nopq), RefTo(i + 1, nopq) >>) >> \o OptPart(a) \o
                       << Lst(<<>>), Lst(<< RefTo(i + 2, nopq) >>), Lst(<< RefTo(i + 1, nopq), RefTo(i, nopq), RefTo(i + 1, nopq), RefTo(i + 3, nopq) >>),
                          Lst([j \in 1..Many |-> RefTo((i + j) + (j \div 7), nopq)]) >>
    [] a.k = "vec2" -> << Lst(<< Real(N(i) \o ".5"), Real("-2.") >>), Lst(<< Real("0."), Real("1.E2") >>),
                          Lst(<< Real("-0.125"), Real("7.") >>) >>
    [] a.k = "vec3" -> << Lst(<< Real(N(i) \o ".5"), Real("-2."), Real("3.") >>), Lst(<< Real("0."), Real("0."), Real("1.") >>),
                          Lst(<< Real("-0.125"), Real("7."), Real("1.E-2") >>) >>
    [] a.k = "vec2list" -> << Lst(<< Lst(<< Real("1."), Real("2.") >>), Lst(<< Real("3."), Real("-4.5") >>) >>),
                              Lst(<<>>), Lst(<< Lst(<< Real("0."), Real("9.") >>) >>),
                              Lst(<< Lst(<< Real("3."), Real("2.") >>), Lst(<< Real("1."), Real("2.") >>), Lst(<< Real("3."), Real("2.") >>) >>),
                              Lst([j \in 1..Many |-> Lst(<< Real(N(j) \o "."), Real("-" \o N(Many - j) \o ".5") >>)]) >>
    [] a.k = "vec3list" -> << Lst(<< Lst(<< Real("1."), Real("2."), Real("3.") >>), Lst(<< Real("3."), Real("-4.5"), Real("0.") >>) >>),
                              Lst(<<>>), Lst(<< Lst(<< Real("0."), Real("9."), Real("8.") >>) >>),
                              Lst(<< Lst(<< Real("3."), Real("2."), Real("1.") >>), Lst(<< Real("1."), Real("2."), Real("3.") >>),
                                     Lst(<< Real("3."), Real("2."), Real("1.") >>) >>),
                              Lst([j \in 1..Many |-> Lst(<< Real(N(j) \o "."), Real("-" \o N(Many - j) \o ".5"), Real("0.25") >>)]) >>
    [] a.k = "value" -> << Typed("IFCLABEL", "IFCLABEL", Str("v" \o N(i))),
                           Typed("IFCBOOLEAN", "IFCBOOLEAN", TokX(".T.", ".TRUE.")),
                           Typed("IFCBOOLEAN", "IFCBOOLEAN", TokX(".F.", ".FALSE.")),
                           Typed("IFCREAL", "IFCREAL", Real("-2.5")),
                           Typed("IFCREAL", "IFCREAL", Real("4.")),
                           Typed("IFCIDENTIFIER", "IFCIDENTIFIER", Str("id" \o N(i))),
                           Typed("IFCLABEL", "IFCLABEL", Str("")),
                           Typed("IFCTHERMALTRANSMITTANCEMEASURE", "IFCTHERMALTRANSMITTANCEMEASURE", Real("0.24")) >>
    [] a.k = "angle" -> << Typed("IFCPLANEANGLEMEASURE", "IFCPLANEANGLEMEASURE", Real("0.5")), RefTo(i, nopq),
                           Typed("IFCPLANEANGLEMEASURE", "IFCPLANEANGLEMEASURE", Real("-1.")) >>

Omitted(a) == IF a.o THEN 2 ELSE 1       \* index of $ where it is allowed
=============================================================================
