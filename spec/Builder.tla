------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The builder interface as a state machine.  The state m is the model     *)
(* built so far: the objects, numbered in the order of their creation, the *)
(* relations between them, the open scopes (site, building, storey, wall   *)
(* or slab) and the transform the open wall or slab waits to apply.        *)
(* Apply(m, c) is the effect of a call c.  The laws at the end restate the *)
(* properties C19 to C26 over the state.                                   *)
(* Lengths are integers in units of 1/16 m, even ones in calls, so that    *)
(* halves stay exact; directions are integer vectors of any length.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Zero == << 0, 0, 0 >>
Add(u, v) == << u[1] + v[1], u[2] + v[2], u[3] + v[3] >>
Sub(u, v) == << u[1] - v[1], u[2] - v[2], u[3] - v[3] >>
Scale(k, u) == << k * u[1], k * u[2], k * u[3] >>
Cross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1] >>
EX == << 1, 0, 0 >>
EY == << 0, 1, 0 >>
EZ == << 0, 0, 1 >>

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
(* an object: kind, name, attributes, object it is placed relative to (0:  *)
(* absolute, -1: has no placement), position, representations              *)
Obj(k, n, at, rel, pos, reps) == [k |-> k, n |-> n, at |-> at, rel |-> rel, pos |-> pos, reps |-> reps]
Thing(k, n, at) == Obj(k, n, at, -1, Zero, << >>)

Start == [objs |-> << >>, stack |-> << 0 >>, agg |-> << >>, cont |-> << >>, typed |-> << >>, mat |-> << >>,
          voids |-> << >>, fills |-> << >>, props |-> << >>, pend |-> << >>, moved |-> << >>,
          anon |-> {}]          \* the objects whose number the interface does not tell

Top(m) == m.stack[Len(m.stack)]
Scope(m) == IF m.stack = << >> THEN "done" ELSE IF Top(m) = 0 THEN "project" ELSE m.objs[Top(m)].k
Storey(m) == CHOOSE s \in { m.stack[i] : i \in DOMAIN m.stack } \ {0} : m.objs[s].k = "storey"
Of(m, k) == SelectSeq([i \in DOMAIN m.objs |-> i], LAMBDA i : m.objs[i].k = k)
Anon(m, hs) == [m EXCEPT !.anon = @ \cup hs]
RelOf(rel, b) == { p[1] : p \in { rel[i] : i \in { j \in DOMAIN rel : rel[j][2] = b } } }
The(S) == CHOOSE x \in S : TRUE

Thick(m, u) ==      \* of a layer set usage
  FoldLeft(LAMBDA s, l : s + m.objs[l].at.v[1], 0, m.objs[m.objs[u].at.r[1]].at.r)
HostThick(m, h) == Thick(m, The(RelOf(m.mat, h)))

(***************************************************************************)
(* Shapes                                                                  *)
(***************************************************************************)
Rep(id, ty, it) == [id |-> id, ty |-> ty, it |-> it]
Body(profile, dir, depth) == Rep("Body", "SweptSolid", [k |-> "extrusion", p |-> profile, dir |-> dir, depth |-> depth])
Rect(length, width) == [k |-> "rect", x |-> length, y |-> width, cx |-> length \div 2, cy |-> width \div 2]
Poly2(pts) == [k |-> "poly2", pts |-> pts]
Poly3(pts) == [k |-> "poly3", pts |-> pts]
AxisLine(dir) == Rep("Axis", "Curve2D", [k |-> "line", from |-> Zero, along |-> dir])
HorizontalToDir(d) == LET c == Cross(d, EZ) IN IF c = Zero THEN EX ELSE c
Standing(pts) == [i \in DOMAIN pts |-> << pts[i][1], 0, pts[i][2] >>]

HostDir(m, h) ==      \* the direction a slab is extruded along
  LET b == SelectSeq(m.objs[h].reps, LAMBDA r : r.id = "Body")[1] IN b.it.dir

(***************************************************************************)
(* Transforms                                                              *)
(***************************************************************************)
Still == [t |-> Zero, x |-> EX, y |-> EY, z |-> EZ]
\* the axes turned by a quaternion w, x, y, z of any length but zero
TurnedX(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN << w*w + x*x - y*y - z*z, 2 * (x*y + w*z), 2 * (x*z - w*y) >>
TurnedY(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN << 2 * (x*y - w*z), w*w - x*x + y*y - z*z, 2 * (y*z + w*x) >>
TurnedZ(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN << 2 * (x*z + w*y), 2 * (y*z - w*x), w*w - x*x - y*y + z*z >>
ASSUME /\ TurnedX(<< 1, 0, 0, 1 >>) = << 0, 2, 0 >> /\ TurnedY(<< 1, 1, 0, 0 >>) = << 0, 0, 2 >> /\ TurnedZ(<< 1, 0, 1, 0 >>) = << 2, 0, 0 >>
       /\ \A q \in (-1..1) \X (-1..1) \X (-1..1) \X { 2 } : Cross(TurnedX(q), TurnedY(q)) = Scale(q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4], TurnedZ(q))
(* s: t translation, x y z an axis (a zero one is ignored), q a rotation   *)
(* by a quaternion, which sets all three axes                              *)
Param1(p, s) ==
  CASE s.s = "t" -> [p EXCEPT !.t = s.v]
    [] s.s = "x" -> IF s.v = Zero THEN p ELSE [p EXCEPT !.x = s.v]
    [] s.s = "y" -> IF s.v = Zero THEN p ELSE [p EXCEPT !.y = s.v]
    [] s.s = "z" -> IF s.v = Zero THEN p ELSE [p EXCEPT !.z = s.v]
    [] s.s = "q" -> [p EXCEPT !.x = TurnedX(s.v), !.y = TurnedY(s.v), !.z = TurnedZ(s.v)]
Param(steps) == FoldLeft(Param1, Still, steps)

Mapped(rep, origin, p) ==
  Rep(rep.id, "MappedRepresentation", [k |-> "mapped", o |-> origin, t |-> p.t, x |-> p.x, y |-> p.y, z |-> p.z, of |-> rep])
MapAll(m, i, origin, p) == [m EXCEPT !.objs[i].reps = [j \in DOMAIN @ |-> Mapped(@[j], origin, p)]]

(* what moves with a host: its openings, and the windows filling them      *)
Attached(m, h) ==
  LET os == SelectSeq([i \in DOMAIN m.voids |-> m.voids[i]], LAMBDA p : p[1] = h) IN
  FlattenSeq([i \in DOMAIN os |-> LET o == os[i][2] IN
     << << o, m.objs[o].pos >> >> \o
     [j \in DOMAIN SelectSeq(m.fills, LAMBDA f : f[1] = o) |-> << SelectSeq(m.fills, LAMBDA f : f[1] = o)[j][2], m.objs[o].pos >>]])

CloseHost(m, h) ==
  IF m.pend = << >> THEN m ELSE
  LET p == Param(m.pend[1])
      m1 == MapAll(m, h, Zero, p)
      at == Attached(m, h)
      m2 == FoldLeft(LAMBDA a, x : MapAll(a, x[1], x[2], [p EXCEPT !.t = Sub(@, x[2])]), m1, at)
  IN [m2 EXCEPT !.pend = << >>, !.moved = Append(@, [h |-> h, p |-> p, hreps |-> m2.objs[h].reps,
                                  at |-> [i \in DOMAIN at |-> [o |-> at[i][1], off |-> at[i][2], reps |-> m2.objs[at[i][1]].reps]]])]

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
New(m, o) == [m EXCEPT !.objs = Append(@, o)]
Next1(m) == Len(m.objs) + 1
Open(m, h) == [m EXCEPT !.stack = Append(@, h)]
Rel(m, f, a, b) == [m EXCEPT ![f] = Append(@, << a, b >>)]

(* an element of the open storey: of material c.r[1] and type c.r[2]       *)
Element(m, c, k, reps) ==
  LET h == Next1(m)  s == Storey(m)
      m1 == New(m, Obj(k, c.n, [r |-> << >>], s, c.v, reps))
  IN Rel(Rel(Rel(m1, "cont", s, h), "typed", c.r[2], h), "mat", c.r[1], h)

TypeOf(m, c, k) ==
  LET h == Next1(m)  m1 == New(m, Thing(k, c.n, [s |-> c.s]))
  IN IF c.r = << >> THEN m1 ELSE Rel(m1, "mat", c.r[1], h)

Opening(m, n, pos, reps) ==
  LET h == Next1(m) IN Rel(New(m, Obj("opening", n, [r |-> << >>], Top(m), pos, reps)), "voids", Top(m), h)
(* an opening and the window which fills it, at the opening's origin       *)
Windowed(m, c, pos, oreps, wreps) ==
  LET o == Next1(m)  w == o + 1  s == Storey(m)
      m1 == Opening(m, "OpeningElementOfWindow" \o c.n, pos, oreps)
      m2 == New(m1, Obj("window", c.n, [r |-> << >>], o, Zero, wreps))
  IN Anon(Rel(Rel(Rel(Rel(m2, "fills", o, w), "cont", s, w), "typed", c.r[2], w), "mat", c.r[1], w), {o})

Prop(x) == [n |-> x.n, k |-> x.k, v |-> x.v, u |-> x.u]
Set(m, c) == New(m, Thing("pset", c.n, [p |-> c.p]))

Apply(m, c) ==
  LET h == Next1(m) IN
  CASE c.op = "site"     -> Anon(Rel(Open(New(m, Obj("site", c.n, [r |-> << >>], 0, c.v, << >>)), h), "agg", 0, h), {h})
    [] c.op = "building" -> Anon(Rel(Open(New(m, Obj("building", c.n, [r |-> << >>], Top(m), c.v, << >>)), h), "agg", Top(m), h), {h})
    [] c.op = "storey"   -> LET m1 == New(m, Obj("storey", c.n, [r |-> << >>], Top(m), << 0, 0, c.v[1] >>, << >>))
                                m2 == New(m1, Thing("pset", "StoreyProperties", [p |-> << [n |-> "Storey Height", k |-> "real", v |-> c.v[1], u |-> 0] >>]))
                            IN Anon(Rel(Rel(Open(m2, h), "agg", Top(m), h), "props", h + 1, h), {h, h + 1})
    [] c.op = "material" -> New(m, Thing("material", c.n, [r |-> << >>]))
    [] c.op = "layer"    -> New(m, Thing("layer", c.n, [v |-> c.v, s |-> c.s]))
    [] c.op = "layerset" -> New(m, Thing("layerset", "", [r |-> c.r]))
    [] c.op = "usage"    -> New(m, Thing("usage", "", [r |-> c.r, s |-> c.s, v |-> c.v]))
    [] c.op = "constituent" -> New(m, Thing("constituent", c.n, [s |-> c.s]))
    [] c.op = "cset"     -> New(m, Thing("cset", "", [r |-> c.r]))
    [] c.op \in {"walltype", "slabtype", "rooftype", "windowtype", "spacetype", "shadingtype"} -> TypeOf(m, c, c.op)
    [] c.op = "space"    -> LET m1 == New(m, Obj("space", c.n, [r |-> << >>], Top(m), c.v, << Body(Poly2(c.pts), EZ, c.d[1]) >>))
                            IN Rel(Rel(m1, "agg", Top(m), h), "typed", c.r[1], h)
    [] c.op = "roof"     -> Element(m, c, "roof", << Body(Poly2(c.pts), EZ, Thick(m, c.r[1])) >>)
    [] c.op = "shading"  -> Element(m, c, "shading", << Body(Rect(c.d[1], c.d[2]), EZ, Thick(m, c.r[1])) >>)
    [] c.op = "vwall"    -> Open(Element(m, c, "wall", << Body(Rect(c.d[1], Thick(m, c.r[1])), EZ, c.d[2]), AxisLine(EX) >>), h)
    [] c.op = "vawall"   -> Open(Element(m, c, "wall", << Body(Poly3(Standing(c.pts)), EY, Thick(m, c.r[1])), AxisLine(EX) >>), h)
    [] c.op = "awall"    -> Open(Element(m, c, "wall", << Body(Poly3(c.pts), c.dir, Thick(m, c.r[1])), AxisLine(HorizontalToDir(c.dir)) >>), h)
    [] c.op = "hslab"    -> Open(Element(m, c, "slab", << Body(Poly2(c.pts), EZ, Thick(m, c.r[1])) >>), h)
    [] c.op = "vslab"    -> LET a == << c.d[1], c.d[2], 0 >>  b == << c.d[3], c.d[4], 0 >>  up == << 0, 0, c.d[5] >>
                            IN Open(Element(m, c, "slab", << Body(Poly3(<< Add(a, up), a, b, Add(b, up) >>), Cross(Sub(a, b), EZ), Thick(m, c.r[1])) >>), h)
    [] c.op = "aslab"    -> Open(Element(m, c, "slab", << Body(Poly3(c.pts), c.dir, Thick(m, c.r[1])) >>), h)
    \* openings and windows of a wall: d = << length, height >>
    [] c.op = "vopening" -> Opening(m, c.n, c.v, << Body(Rect(c.d[1], HostThick(m, Top(m))), EZ, c.d[2]) >>)
    [] c.op = "opening"  -> Opening(m, c.n, c.v, << Body(Rect(c.d[1], HostThick(m, Top(m))), c.dir, c.d[2]) >>)
    [] c.op = "wwindow"  -> LET p == Rect(c.d[1], HostThick(m, Top(m)))
                            IN Windowed(m, c, c.v, << Body(p, EZ, c.d[2]) >>, << Body(p, c.dir, c.d[2]) >>)
    \* openings and windows of a slab
    [] c.op = "ropening" -> Opening(m, c.n, c.v, << Body(Rect(c.d[1], c.d[2]), HostDir(m, Top(m)), HostThick(m, Top(m))) >>)
    [] c.op = "hopening" -> Opening(m, c.n, Zero, << Body(Poly2(c.pts), EZ, HostThick(m, Top(m))) >>)
    [] c.op = "aopening" -> Opening(m, c.n, Zero, << Body(Poly3(c.pts), HostDir(m, Top(m)), HostThick(m, Top(m))) >>)
    [] c.op = "rwindow"  -> LET b == << Body(Rect(c.d[1], c.d[2]), HostDir(m, Top(m)), HostThick(m, Top(m))) >> IN Windowed(m, c, c.v, b, b)
    [] c.op = "hwindow"  -> LET b == << Body(Poly2(c.pts), EZ, HostThick(m, Top(m))) >> IN Windowed(m, c, Zero, b, b)
    [] c.op = "awindow"  -> LET b == << Body(Poly3(c.pts), HostDir(m, Top(m)), HostThick(m, Top(m))) >> IN Windowed(m, c, Zero, b, b)
    [] c.op = "move"     -> [m EXCEPT !.pend = << c.tp >>]                  \* the last one given counts
    [] c.op = "moveid"   -> MapAll(m, c.r[1], Zero, Param(c.tp))
    [] c.op = "pset"     -> Set(m, c)
    [] c.op = "wallprops" -> Anon(Rel(Set(m, c), "props", h, Top(m)), {h})
    [] c.op = "relate"   -> Rel(m, "props", c.r[1], c.r[2])
    [] c.op = "close"    -> LET m1 == IF Scope(m) \in {"wall", "slab"} THEN CloseHost(m, Top(m)) ELSE m
                            IN [m1 EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

(***************************************************************************)
(* Laws                                                                    *)
(***************************************************************************)
Elements == {"wall", "slab", "roof", "window", "shading"}
Bag(rel, a, b) == Cardinality({ i \in DOMAIN rel : rel[i] = << a, b >> })
Ups(rel, b) == Cardinality({ i \in DOMAIN rel : rel[i][2] = b })
ParentKind == [site |-> "project", building |-> "site", storey |-> "building", space |-> "storey"]
KindOf(m, i) == IF i = 0 THEN "project" ELSE m.objs[i].k

Tree(m) == \A i \in DOMAIN m.objs : LET k == m.objs[i].k IN
  /\ Ups(m.agg, i) = (IF k \in DOMAIN ParentKind THEN 1 ELSE 0)
  /\ k \in DOMAIN ParentKind => KindOf(m, The(RelOf(m.agg, i))) = ParentKind[k]
  /\ Ups(m.cont, i) = (IF k \in Elements THEN 1 ELSE 0)
  /\ k \in Elements => KindOf(m, The(RelOf(m.cont, i))) = "storey"
TypeFor == [wall |-> "walltype", slab |-> "slabtype", roof |-> "rooftype", window |-> "windowtype", space |-> "spacetype", shading |-> "shadingtype"]
Typed(m) == \A i \in DOMAIN m.objs : LET k == m.objs[i].k IN
  /\ Ups(m.typed, i) = (IF k \in DOMAIN TypeFor THEN 1 ELSE 0)
  /\ k \in DOMAIN TypeFor => KindOf(m, The(RelOf(m.typed, i))) = TypeFor[k]
MatFor == [wall |-> "usage", slab |-> "usage", roof |-> "usage", shading |-> "usage", window |-> "cset",
           walltype |-> "layerset", slabtype |-> "layerset", rooftype |-> "layerset", shadingtype |-> "layerset"]
Materials(m) == \A i \in DOMAIN m.objs : LET k == m.objs[i].k IN
  /\ Ups(m.mat, i) = (IF k \in DOMAIN MatFor THEN 1 ELSE 0)
  /\ k \in DOMAIN MatFor => KindOf(m, The(RelOf(m.mat, i))) = MatFor[k]
VoidsFills(m) == \A i \in DOMAIN m.objs : LET k == m.objs[i].k IN
  /\ Ups(m.voids, i) = (IF k = "opening" THEN 1 ELSE 0)
  /\ k = "opening" => KindOf(m, The(RelOf(m.voids, i))) \in {"wall", "slab"} /\ m.objs[i].rel = The(RelOf(m.voids, i))
  /\ Ups(m.fills, i) = (IF k = "window" THEN 1 ELSE 0)
  /\ k = "window" => LET o == The(RelOf(m.fills, i)) IN
       /\ KindOf(m, o) = "opening" /\ m.objs[i].rel = o
       /\ Cardinality({ j \in DOMAIN m.fills : m.fills[j][1] = o }) = 1
       /\ m.objs[The(RelOf(m.voids, o))].rel = The(RelOf(m.cont, i))       \* the storey of the host
(* following the placements from any product one comes to a site           *)
RECURSIVE Rooted(_, _)
Rooted(m, i) == IF m.objs[i].rel = 0 THEN m.objs[i].k = "site" ELSE m.objs[i].rel < i /\ Rooted(m, m.objs[i].rel)
Placed(m) == \A i \in DOMAIN m.objs : m.objs[i].rel # -1 => Rooted(m, i)

(* C25: a point x of a mapped representation comes to R(x + o) + t, where  *)
(* o is the mapping origin.  Seen from the host, an attached point moves   *)
(* as a point of the host does.                                            *)
Rot(it, v) == Add(Add(Scale(v[1], it.x), Scale(v[2], it.y)), Scale(v[3], it.z))
MapPoint(it, x) == Add(Rot(it, Add(x, it.o)), it.t)
Motion(m) == \A i \in DOMAIN m.moved : LET mv == m.moved[i] IN
  \A j \in DOMAIN mv.at : \A r \in DOMAIN mv.at[j].reps : \A x \in { Zero, EX, EY, EZ, << 3, -5, 7 >> } :
    Add(mv.at[j].off, MapPoint(mv.at[j].reps[r].it, x)) = MapPoint(mv.hreps[1].it, Add(mv.at[j].off, x))

Laws(m) == Tree(m) /\ Typed(m) /\ Materials(m) /\ VoidsFills(m) /\ Placed(m) /\ Motion(m)
=============================================================================
