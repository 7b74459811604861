----------------------------- MODULE BuilderRuns -----------------------------
(***************************************************************************)
(* Histories of the machine of Builder.  Every argument of a call is a     *)
(* function of a throw of dice d (a sequence of numbers); a walk throws    *)
(* random dice, a search tries every call with two fixed throws.           *)
(* Framed histories begin with one site, building and storey and with      *)
(* materials and types; every history ends by closing all scopes.          *)
(***************************************************************************)
EXTENDS Builder, EnumApi, Json

CONSTANTS Walk, Depth, Frames     \* Frames: number of calls of the frame to begin with

VARIABLES m, prog
vars == << m, prog >>

Pick(s, x) == s[(x % Len(s)) + 1]
Dice == 1..40

(* --- arguments -------------------------------------------------------- *)
Nums == << 2, 0, 16, -8, 24, 40, 66, 200, -34, 6, 48, 10, 16002, 0, 1600000 >>
Pos == << 2, 4, 10, 16, 24, 34, 66, 6, 200, 48, 3202 >>
At(d, i) == d[((i - 1) % 40) + 1] + ((i - 1) \div 40)
N(d, i) == Pick(Nums, At(d, i))
L(d, i) == Pick(Pos, d[i])
V3(d, i) == << N(d, i), N(d, i + 1), N(d, i + 2) >>
Dirs == << EZ, EX, << 1, 2, 2 >>, << -3, 0, 4 >>, << 0, -5, 12 >>, << 2, -3, 6 >>, << 0, 0, -1 >>, << 4, 3, 0 >>, << 0, 7, 0 >>, << -1, 0, 0 >> >>
\* polygons: short ones, ones of many points, ones that end where they begin
Corners(x) == Pick(<< 3, 4, 5, 3, 4, 5, 6, 9, 17, 70 >>, x)
Close(pts, x) == IF x % 5 = 0 THEN Append(pts, pts[1]) ELSE pts
Pts2(d, i) == Close([j \in 1..Corners(d[i]) |-> << N(d, i + j), N(d, i + j + 1) + 2 * j >>], d[i + 1] + d[36])
Pts3(d, i) == Close([j \in 1..Corners(d[i]) |-> << N(d, i + j), N(d, i + j + 1) + 2 * j, N(d, i + j + 2) >>], d[i + 1] + d[36])
Counts == << 0, 1, 2, 3, 0, 1, 2, 3, 7, 20 >>      \* layers of a set
Bases == << "A", "Wall 1", "B", "<U+00C4>-(x)", "It's", "" >>
Name(d, h) == Pick(Bases, d[38]) \o (IF d[39] % 3 # 0 THEN "" ELSE ToString(h))
UName(d, h) == Pick(Bases, d[38]) \o "-" \o ToString(h)
Items(en) == EnumTable[CHOOSE i \in DOMAIN EnumTable : EnumTable[i].enum = en].items
AllItems == TLCEval([en \in {"WallTypeEnum", "SlabTypeEnum", "RoofTypeEnum", "WindowTypeEnum", "WindowPartitioningTypeEnum", "SpaceTypeEnum",
                             "ShadingDeviceTypeEnum", "LayerSetDirectionEnum", "DirectionSenseEnum"} |-> Items(en)])
EnumOf == [walltype |-> "WallTypeEnum", slabtype |-> "SlabTypeEnum", rooftype |-> "RoofTypeEnum", spacetype |-> "SpaceTypeEnum",
           shadingtype |-> "ShadingDeviceTypeEnum", windowtype |-> "WindowTypeEnum"]
Turns == << << 1, 0, 0, 1 >>, << 1, 0, 0, 0 >>, << 1, 1, 0, 0 >>, << 1, 0, 1, 0 >>, << 0, 0, 0, 1 >>, << 0, 1, 0, 0 >>, << 1, 1, 1, 1 >>, << 2, 0, 0, 1 >>,
            << 2, 1, 0, 0 >>, << 3, 0, -1, 0 >>, << 1, 2, 3, 4 >>, << -1, 0, 0, 1 >>, << 1, 0, 0, -1 >>, << 5, -1, 2, 0 >> >>
Step1(d, i) ==
  LET k == Pick(<< "t", "x", "q", "z", "t", "y", "q", "t" >>, d[i]) IN
  [s |-> k, v |-> CASE k = "t" -> V3(d, i + 1)
                    [] k = "q" -> Pick(Turns, d[i + 1])
                    [] OTHER -> Pick(Append(Dirs, Zero), d[i + 1])]
Steps(d, i) == [j \in 1..(d[i] % 4) |-> Step1(d, i + 4 * j - 3)]
Props(mm, d) == LET h == Next1(mm) IN [j \in 1..Pick(<< 0, 1, 2, 3, 0, 1, 2, 3, 8, 35 >>, d[3]) |->
  LET k == Pick(<< "real", "label", "bool", "thermal", "identifier" >>, At(d, 4 + j)) IN
  [n |-> Pick(Bases, At(d, 8 + j)) \o (IF d[29] % 3 = 0 THEN "" ELSE ToString(j)), k |-> k,
   v |-> CASE k \in {"real", "thermal"} -> N(d, 12 + j) [] k = "bool" -> At(d, 12 + j) % 2 [] OTHER -> At(d, 12 + j) % 6,
   u |-> IF At(d, 16 + j) % 4 # 0 \/ h = 1 THEN 0
         ELSE LET u == At(d, 20 + j) % h IN IF u \in mm.anon \cup Range(mm.stack) THEN 0 ELSE u]]

(* --- calls ------------------------------------------------------------ *)
C(op) == [op |-> op, n |-> "", r |-> << >>, v |-> Zero, d |-> << >>, dir |-> EZ, pts |-> << >>, s |-> << >>, tp |-> << >>, p |-> << >>]
AnyOf(mm, k, d, i) == Pick(Of(mm, k), d[i])
Movable == {"wall", "slab", "roof", "shading", "window", "opening"}
Related == Movable \cup {"space", "walltype", "slabtype", "rooftype", "windowtype", "spacetype", "shadingtype"}
Known(mm, K) == SelectSeq([i \in DOMAIN mm.objs |-> i], LAMBDA i : mm.objs[i].k \in K /\ i \notin mm.anon)
Some(mm, k) == \E i \in DOMAIN mm.objs : mm.objs[i].k = k

NeedsOf(op) ==
  CASE op \in {"usage", "walltype", "slabtype", "rooftype", "shadingtype"} -> {"layerset"}
    [] op = "space" -> {"spacetype"}
    [] op = "roof" -> {"usage", "rooftype"}
    [] op = "shading" -> {"usage", "shadingtype"}
    [] op \in {"vwall", "vawall", "awall"} -> {"usage", "walltype"}
    [] op \in {"hslab", "vslab", "aslab"} -> {"usage", "slabtype"}
    [] op \in {"wwindow", "rwindow", "hwindow", "awindow"} -> {"cset", "windowtype"}
    [] op = "layerset" -> {"layer"}
    [] op = "cset" -> {"constituent"}
    [] op = "relate" -> {"pset"}
    [] OTHER -> {}
Needs == TLCEval([op \in {"site", "building", "storey", "close", "material", "layer", "layerset", "usage", "constituent", "cset", "walltype", "slabtype", "rooftype",
     "windowtype", "spacetype", "shadingtype", "space", "roof", "shading", "vwall", "vawall", "awall", "hslab", "vslab", "aslab", "vopening", "opening",
     "wwindow", "ropening", "hopening", "aopening", "rwindow", "hwindow", "awindow", "move", "moveid", "pset", "wallprops", "relate"} |-> NeedsOf(op)])
Elems == << "vwall", "hslab", "vawall", "awall", "vslab", "aslab", "roof", "shading", "space", "moveid" >>
OpsIn(scope) ==
  CASE scope = "project"  -> << "site", "site", "site", "site", "site", "close" >>
    [] scope = "site"     -> << "building", "building", "close" >>
    [] scope = "building" -> << "storey", "storey", "close" >>
    [] scope = "storey"   -> << "material", "layer", "layerset", "usage", "constituent", "cset", "walltype", "slabtype", "rooftype", "windowtype", "spacetype",
                                "shadingtype", "relate", "pset", "close", "close", "close" >> \o
                             FlattenSeq(<< Elems, Elems, Elems >>)
    [] scope = "wall"     -> << "vopening", "opening", "wwindow", "wallprops", "move", "close", "wwindow" >>
    [] scope = "slab"     -> << "ropening", "hopening", "aopening", "rwindow", "hwindow", "awindow", "move", "close" >>
    [] scope = "done"     -> << >>
OpTable == TLCEval([s \in {"project", "site", "building", "storey", "wall", "slab", "done"} |-> OpsIn(s)])
CanDo(mm, op) == /\ \A k \in Needs[op] : Some(mm, k)
                 /\ op = "moveid" => Known(mm, Movable) # << >>
                 /\ op = "relate" => Known(mm, {"pset"}) # << >> /\ Known(mm, Related) # << >>
Able(mm) == SelectSeq(OpTable[Scope(mm)], LAMBDA op : CanDo(mm, op))

Call(mm, op, d) ==
  LET h == Next1(mm)  c == C(op)  u == AnyOf(mm, "usage", d, 1) IN
  CASE op \in {"site", "building"} -> [c EXCEPT !.n = UName(d, h), !.v = V3(d, 2)]
    [] op = "storey"      -> [c EXCEPT !.n = UName(d, h), !.v = << N(d, 2) >>]
    [] op = "close"       -> c
    [] op = "material"    -> [c EXCEPT !.n = UName(d, h)]
    [] op = "layer"       -> [c EXCEPT !.n = Name(d, h), !.v = << L(d, 2) >>, !.s = << Pick(<< "T", "F" >>, d[3]), Pick(Bases, d[4]) >>]
    [] op = "layerset"    -> [c EXCEPT !.r = [j \in 1..Pick(Counts, d[1]) |-> Pick(Of(mm, "layer"), At(d, 1 + j))]]
    [] op = "usage"       -> [c EXCEPT !.r = << AnyOf(mm, "layerset", d, 1) >>, !.v = << N(d, 2) >>,
                                       !.s = Pick(AllItems["LayerSetDirectionEnum"], d[3]) \o Pick(AllItems["DirectionSenseEnum"], d[4])]
    [] op = "constituent" -> [c EXCEPT !.n = Name(d, h), !.s = << Pick(Bases, d[4]) >>]
    [] op = "cset"        -> [c EXCEPT !.r = [j \in 1..Pick(Counts, d[1]) |-> Pick(Of(mm, "constituent"), At(d, 1 + j))]]
    [] op \in {"walltype", "slabtype", "rooftype", "shadingtype"} -> [c EXCEPT !.n = Name(d, h), !.r = << AnyOf(mm, "layerset", d, 1) >>, !.s = Pick(AllItems[EnumOf[op]], d[2])]
    [] op = "spacetype"   -> [c EXCEPT !.n = Name(d, h), !.s = Pick(AllItems["SpaceTypeEnum"], d[2])]
    [] op = "windowtype"  -> [c EXCEPT !.n = Name(d, h), !.s = Pick(AllItems["WindowTypeEnum"], d[2]) \o Pick(AllItems["WindowPartitioningTypeEnum"], d[3])]
    [] op = "space"       -> [c EXCEPT !.n = Name(d, h), !.r = << AnyOf(mm, "spacetype", d, 1) >>, !.v = V3(d, 2), !.d = << L(d, 5) >>, !.pts = Pts2(d, 6)]
    [] op = "roof"        -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "rooftype", d, 12) >>, !.v = V3(d, 2), !.pts = Pts2(d, 6)]
    [] op = "shading"     -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "shadingtype", d, 12) >>, !.v = V3(d, 2), !.d = << L(d, 6), L(d, 7) >>]
    [] op = "vwall"       -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "walltype", d, 12) >>, !.v = V3(d, 2), !.d = << L(d, 6), L(d, 7) >>]
    [] op = "vawall"      -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "walltype", d, 12) >>, !.v = V3(d, 2), !.pts = Pts2(d, 6)]
    [] op = "awall"       -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "walltype", d, 12) >>, !.v = V3(d, 2), !.pts = Pts3(d, 14), !.dir = Pick(Dirs, d[13])]
    [] op = "hslab"       -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "slabtype", d, 12) >>, !.v = V3(d, 2), !.pts = Pts2(d, 6)]
    [] op = "vslab"       -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "slabtype", d, 12) >>, !.v = V3(d, 2),
                                       !.d = LET a == << N(d, 6), N(d, 7) >>  w == Pick(<< << 48, 0 >>, << -32, 24 >>, << 10, -24 >>, << 0, 200 >> >>, d[8])
                                             IN << a[1], a[2], a[1] + w[1], a[2] + w[2], L(d, 9) >>]
    [] op = "aslab"       -> [c EXCEPT !.n = Name(d, h), !.r = << u, AnyOf(mm, "slabtype", d, 12) >>, !.v = V3(d, 2), !.pts = Pts3(d, 14), !.dir = Pick(Dirs, d[13])]
    [] op \in {"vopening", "ropening"} -> [c EXCEPT !.n = Name(d, h), !.v = V3(d, 2), !.d = << L(d, 6), L(d, 7) >>]
    [] op = "opening"     -> [c EXCEPT !.n = Name(d, h), !.v = V3(d, 2), !.d = << L(d, 6), L(d, 7) >>, !.dir = Pick(Dirs, d[13])]
    [] op = "hopening"    -> [c EXCEPT !.n = Name(d, h), !.pts = Pts2(d, 6)]
    [] op = "aopening"    -> [c EXCEPT !.n = Name(d, h), !.pts = Pts3(d, 14)]
    [] op = "wwindow"     -> [c EXCEPT !.n = UName(d, h), !.r = << AnyOf(mm, "cset", d, 1), AnyOf(mm, "windowtype", d, 12) >>, !.v = V3(d, 2),
                                       !.d = << L(d, 6), L(d, 7) >>, !.dir = Pick(Dirs, d[13])]
    [] op = "rwindow"     -> [c EXCEPT !.n = UName(d, h), !.r = << AnyOf(mm, "cset", d, 1), AnyOf(mm, "windowtype", d, 12) >>, !.v = V3(d, 2), !.d = << L(d, 6), L(d, 7) >>]
    [] op = "hwindow"     -> [c EXCEPT !.n = UName(d, h), !.r = << AnyOf(mm, "cset", d, 1), AnyOf(mm, "windowtype", d, 12) >>, !.pts = Pts2(d, 6)]
    [] op = "awindow"     -> [c EXCEPT !.n = UName(d, h), !.r = << AnyOf(mm, "cset", d, 1), AnyOf(mm, "windowtype", d, 12) >>, !.pts = Pts3(d, 14)]
    [] op = "move"        -> [c EXCEPT !.tp = Steps(d, 1)]
    [] op = "moveid"      -> LET o == Pick(Known(mm, Movable), d[30]) IN [c EXCEPT !.r = << o >>, !.s = << mm.objs[o].k >>, !.tp = Steps(d, 1)]
    [] op \in {"pset", "wallprops"} -> [c EXCEPT !.n = UName(d, h), !.p = Props(mm, d)]
    [] op = "relate"      -> LET o == Pick(Known(mm, Related), d[30]) IN [c EXCEPT !.r = << Pick(Known(mm, {"pset"}), d[1]), o >>, !.s = << mm.objs[o].k >>]

(* --- the frame -------------------------------------------------------- *)
FixedDice(n, k) == [i \in Dice |-> (n * 31 + i * (k + 7) + (i \div 3) * n + k) % 997]
FrameOps == << "site", "building", "storey", "layer", "layer", "layerset", "usage", "layerset", "usage", "constituent", "constituent", "cset", "cset",
               "walltype", "walltype", "slabtype", "rooftype", "windowtype", "spacetype", "shadingtype" >>
(* a layer set with two layers first, a constituent set with one           *)
FrameDice(i) == [FixedDice(i, 3) EXCEPT ![1] = IF FrameOps[i] \in {"layerset", "cset"} THEN (IF i % 2 = 0 THEN 2 ELSE 1) ELSE @]
FrameDo(x, i) == LET c == Call(x.m, FrameOps[i], FrameDice(i)) IN [m |-> Apply(x.m, c), prog |-> Append(x.prog, c)]
Framed(k) == FoldLeft(FrameDo, [m |-> Start, prog |-> << >>], [i \in 1..k |-> i])

(* --- behaviours ------------------------------------------------------- *)
Init == \E k \in Frames : LET f == Framed(k) IN m = f.m /\ prog = f.prog
Do(c) == m' = Apply(m, c) /\ prog' = Append(prog, c)
Room == Len(prog) < Depth

WalkNext ==
  IF Room THEN \E d \in { TLCEval([i \in Dice |-> RandomElement(0..(9999 + Len(prog)))]) } : LET a == Able(m) IN Do(Call(m, Pick(a, d[40]), d))
          ELSE Do(C("close"))
SearchNext ==
  IF Room THEN \E op \in Range(Able(m)) \ {"close"} : \E k \in {1, 4} :
                 \* in a scope other than that of the frame one may go on or close
                 Do(Call(m, op, FixedDice(Len(prog), k)))
               \/ (Scope(m) \in {"wall", "slab", "storey"} /\ Do(C("close")))
          ELSE Do(C("close"))
Next == Scope(m) # "done" /\ IF Walk THEN WalkNext ELSE SearchNext
Spec == Init /\ [][Next]_vars

(* the names a project is begun with                                       *)
Who == LET x == Len(prog) + 5 * Len(m.objs) + Len(m.cont) IN
  [developer |-> Pick(Bases, x) \o "d", version |-> Pick(Bases, x + 1), application |-> Pick(Bases, x \div 2) \o "a", short |-> Pick(Bases, x \div 3) \o "s",
   person |-> Pick(Bases, x \div 5) \o "p", organization |-> Pick(Bases, x \div 7) \o "o", project |-> Pick(Bases, x \div 4)]

LawsHold == Laws(m)
Emit == Scope(m) = "done" => PrintT("@@" \o ToJson([prog |-> prog, who |-> Who, objs |-> m.objs, agg |-> m.agg, cont |-> m.cont, typed |-> m.typed, mat |-> m.mat,
                                                      voids |-> m.voids, fills |-> m.fills, props |-> m.props]))
=============================================================================
