------------------------------- MODULE ViewsRuns -------------------------------
(***************************************************************************)
(* Models of Views.  A search adds, to a base with several instances of    *)
(* every kind, one instance with every combination of references of its    *)
(* alternatives, and (Depth 2) a second one that uses it.  A walk throws   *)
(* dice for instances of all kinds and for changes after loading.          *)
(***************************************************************************)
EXTENDS Views, Json

CONSTANTS Walk, Depth, Wide     \* Wide: the search also tries * and a second candidate everywhere

I0(k, r, n) == Inst(k, r, n, << >>, << >>)
Base == <<
  I0("pt2", << >>, << 16, 33 >>), I0("pt2", << >>, << -7, 0 >>), I0("pt3", << >>, << 5, -48, 1 >>), I0("pt3", << >>, << 9, 160, -2 >>),       \* 1..4
  I0("dir2", << >>, << 0, 16 >>), I0("dir2", << >>, << -16, 8 >>), I0("dir3", << >>, << 0, 0, 16 >>), I0("dir3", << >>, << 16, -32, 3 >>),   \* 5..8
  I0("pl2", << >>, << 1, 2, 3, 4, 0, 0, 1, 2 >>), I0("pl3", << >>, << -1, 0, -3, 4, 5, 6, 4, 5, 6 >>),                                                  \* 9, 10
  I0("poly", << 1, 2, 1 >>, << >>), I0("poly", << 4, 3 >>, << >>), I0("icurve", << 9 >>, << >>), I0("icurve", << 10 >>, << >>),              \* 11..14
  I0("ax2", << 1, 0 >>, << >>), I0("ax2", << 2, 6 >>, << >>), I0("ax3", << 3, 0, 0 >>, << >>), I0("ax3", << 4, 7, 8 >>, << >>),              \* 15..18
  Inst("rect", << 16 >>, << 40, 24 >>, << >>, << "AREA" >>), Inst("arb", << 12 >>, << >>, << >>, << "CURVE" >>),                             \* 19, 20
  I0("solid", << 19, 18, 7 >>, << 72 >>), I0("solid", << 20, 0, 8 >>, << 3 >>), I0("opq", << >>, << >>),                                     \* 21..23
  I0("ctx", << 17, 0 >>, << >>), I0("ctx", << 15, 5 >>, << >>), I0("sub", << 24 >>, << >>), I0("sub", << 25 >>, << >>),                      \* 24..27
  I0("rep", << 26, 21, 23 >>, << >>), I0("rep", << 25, 11 >>, << >>), I0("rmap", << 18, 28 >>, << >>), I0("rmap", << 17, 29 >>, << >>),      \* 28..31
  Inst("opu", << 7, 8, 3, 0 >>, << >>, << << 32 >> >>, << >>), Inst("opn", << 0, 8, 4, 7 >>, << >>, << << >>, << 8 >>, << >> >>, << >>),     \* 32, 33
  I0("item", << 30, 32 >>, << >>), I0("item", << 31, 33 >>, << >>), I0("shape", << 28, 29 >>, << >>), I0("shape", << 29 >>, << >>),          \* 34..37
  Inst("prod", << 36 >>, << >>, << >>, << "Slab" >>) >>

Pick(s, x) == s[(x % Len(s)) + 1]
Of(I, ks) == SelectSeq([j \in DOMAIN I |-> j], LAMBDA p : I[p].k \in ks)
Numbers == << 16, 0, -16, 1, 33, -7, 160, 4000, 24, 8 >>
HowMany == [k \in Kinds |-> CASE k \in {"pt2", "dir2", "rect"} -> 2 [] k \in {"pt3", "dir3"} -> 3 [] k = "solid" -> 1 [] OTHER -> 0]
Scales == [k \in Kinds |-> CASE k = "opu" -> 1 [] k = "opn" -> 3 [] OTHER -> 0]
Names == [k \in Kinds |-> IF k \in {"rect", "arb"} THEN << "AREA", "CURVE" >> ELSE IF k = "prod" THEN << "Wall", "Slab", "Window", "Space", "Door", "Roof" >> ELSE << >>]

(* --- walk ------------------------------------------------------------- *)
Throw == { TLCEval([i \in 1..24 |-> RandomElement(0..(997 + Len(insts) + Len(edits)))]) }
Order == << "prod", "item", "rep", "opn", "opu", "solid", "rect", "arb", "ax3", "shape", "rmap", "poly", "ax2", "sub", "ctx", "icurve", "pt3", "dir3", "pt2", "dir2", "pl2", "pl3", "opq" >>
\* one reference in four to an optional place is missing; half of the others name a recent instance
Ref(I, k, j, d) == LET c == Of(I, Target(k, j)) IN
  IF j \in Optional[k] /\ d[j] % 4 = 0 THEN (IF d[j] % 8 = 0 THEN 0 ELSE -1)
  ELSE IF d[24 - j] % 2 = 0 THEN c[Len(c) - (d[j] % (IF Len(c) > 3 THEN 3 ELSE Len(c)))] ELSE Pick(c, d[j])
Width(k, d) == Len(Targets[k]) + (IF k \in Listing THEN d[20] % 4 ELSE 0)
Unit(n) == IF \A j \in DOMAIN n : n[j] = 0 THEN [n EXCEPT ![1] = 16] ELSE n
Made(I, k, d) ==
  LET r == [j \in 1..Width(k, d) |-> Ref(I, k, j, d)]
      c == IF k = "pl2" THEN 2 ELSE 3
      l == [j \in 1..(c * (d[20] % 4)) |-> Pick(Numbers, d[j]) + (d[20] % 2)]
      n == IF k \in {"pl2", "pl3"} THEN (IF d[21] % 2 = 0 /\ l # << >> THEN l \o SubSeq(l, 1, c) ELSE l) ELSE [j \in 1..HowMany[k] |-> Pick(Numbers, d[9 + j])]
  IN [k |-> k, r |-> IF k = "poly" THEN SelectSeq(r, LAMBDA p : I[p].k = I[r[1]].k) ELSE r, n |-> IF k \in {"dir2", "dir3"} THEN Unit(n) ELSE n,
      o |-> [j \in 1..Scales[k] |-> IF d[14 + j] % 4 = 0 THEN << >> ELSE IF d[14 + j] % 4 = 1 THEN << 0, 0 >> ELSE << Pick(Numbers, d[17 + j]) >>],
      s |-> IF Names[k] = << >> THEN << >> ELSE << Pick(Names[k], d[12]) >>,
      i |-> SelectSeq([j \in 1..Width(k, d) |-> j], LAMBDA j : j \in Inlinable[k] /\ r[j] > 0 /\ d[12 + j] % 3 = 0)]
WalkAdd == \E d \in Throw : insts' = Append(insts, Made(insts, Pick(Order, (d[22] * d[23]) % (11 + (d[21] % 14))), d)) /\ UNCHANGED edits
\* changes of points, solids, axes, representations and items, to what was there before them
Changeable == {"pt2", "pt3", "solid", "ax3", "rep", "item"}
WalkEdit == \E d \in Throw : LET c == Of(insts, Changeable)  p == IF d[22] % 3 = 0 THEN c[Len(c) - (d[23] % 3)] ELSE Pick(c, d[23]) IN
  LET x == Made(SubSeq(Now, 1, p - 1), Now[p].k, d) IN
  /\ \A j \in DOMAIN Targets[x.k] : Of(SubSeq(Now, 1, p - 1), Target(x.k, j)) # << >>
  /\ edits' = Append(edits, << p, x >>) /\ UNCHANGED insts
Stop == Len(Base) + Depth
WalkNext == IF Len(insts) < Stop THEN WalkAdd ELSE Len(edits) < 4 /\ WalkEdit

(* --- search ----------------------------------------------------------- *)
Few(k, j) == LET c == Of(insts, Target(k, j))  f == { c[1], c[Len(c)] } \cup (IF Wide THEN { c[2] } ELSE {}) IN
  (IF j \in Optional[k] THEN {0} \cup (IF Wide THEN {-1} ELSE {}) ELSE {}) \cup f
RefsOf(k) == LET t == Len(Targets[k]) IN
  CASE t = 0 -> { << >> } [] t = 1 -> { << a >> : a \in Few(k, 1) } [] t = 2 -> { << a, b >> : a \in Few(k, 1), b \in Few(k, 2) }
     [] t = 3 -> { << a, b, c >> : a \in Few(k, 1), b \in Few(k, 2), c \in Few(k, 3) }
     [] t = 4 -> { << a, b, c, e >> : a \in Few(k, 1), b \in Few(k, 2), c \in Few(k, 3), e \in Few(k, 4) }
\* lists: a second element of each kind there may be
Lists(k, r) == IF k \notin Listing THEN { r } ELSE { r } \cup { Append(r, q) : q \in Range(Of(insts, IF k = "poly" THEN { insts[r[1]].k } ELSE Target(k, Len(r)))) }
OptionsOf(k) == [1..Scales[k] -> { << >>, << 40 >> } \cup (IF Wide THEN { << 0, 0 >>, << 16 >> } ELSE {})]
NamesOf(k) == IF Names[k] = << >> THEN { << >> } ELSE { << Names[k][j] >> : j \in DOMAIN Names[k] }
Nums(k) == [j \in 1..HowMany[k] |-> 11 * j]
Places(k, r) == { << >> } \cup { << j >> : j \in { j \in Inlinable[k] : r[j] > 0 } }
SearchNext ==
  /\ Len(insts) < Stop
  /\ \E k \in Viewed \cup {"rmap", "sub", "ctx", "shape"} : \E r0 \in RefsOf(k) : \E r \in Lists(k, r0) :
       /\ Len(insts) > Len(Base) => Len(insts) \in Range(r)
       /\ \E o \in OptionsOf(k), s \in NamesOf(k), i \in (IF Wide THEN Places(k, r) ELSE { << >> }) :
            insts' = Append(insts, [k |-> k, r |-> r, n |-> Nums(k), o |-> o, s |-> s, i |-> i])
  /\ UNCHANGED edits

Init == insts = Base /\ edits = << >>
Next == IF Walk THEN WalkNext ELSE SearchNext
Spec == Init /\ [][Next]_vars

Asked == LET v == Of(insts, Viewed) IN IF Walk THEN v ELSE IF insts = Base THEN v ELSE SelectSeq(v, LAMBDA p : p > Len(Base))
Done == IF Walk THEN Len(edits) = 4 ELSE TRUE
Emit == Done => PrintT("@@" \o ToJson([insts |-> (IF Walk THEN insts ELSE SubSeq(insts, Len(Base) + 1, Len(insts))), edits |-> edits,
                                       views |-> LET I == Now IN [j \in DOMAIN Asked |-> << Asked[j], I[Asked[j]].k, View(I, Asked[j]) >>]]))
DumpBase == (Len(insts) = Len(Base)) => PrintT("@@" \o ToJson([base |-> Base]))
=============================================================================
