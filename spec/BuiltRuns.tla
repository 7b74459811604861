------------------------------- MODULE BuiltRuns -------------------------------
(***************************************************************************)
(* Programs of builder calls, and what the extractor has to return for the *)
(* file that was built once it is loaded: the state of the builder machine *)
(* decides it, not the file.  Lists of answers are bags: the builder does  *)
(* not promise an order among related objects; the layers of a set have    *)
(* one.                                                                    *)
(***************************************************************************)
EXTENDS BuilderRuns

\* texts with an apostrophe are not loaded as what they are (a known finding of C05)
PlainBases == << "A", "Wall 1", "B", "<U+00C4>-(x)", "C;D", "" >>

BKind(h) == IF h = 0 THEN "project" ELSE m.objs[h].k
From(rel, a) == LET q == SelectSeq(rel, LAMBDA p : p[1] = a) IN [i \in DOMAIN q |-> q[i][2]]
To(rel, b)   == LET q == SelectSeq(rel, LAMBDA p : p[2] = b) IN [i \in DOMAIN q |-> q[i][1]]
Join(ss) == FlattenSeq(ss)

BuiltParts(x, k) == SelectSeq(From(m.agg, x), LAMBDA b : BKind(b) = k)
BuiltLayers(x) == LET us == To(m.mat, x) IN
  Join([i \in DOMAIN us |-> IF BKind(us[i]) = "usage" THEN m.objs[m.objs[us[i]].at.r[1]].at.r ELSE << >>])
BuiltConstituents(x) == LET us == To(m.mat, x) IN Join([i \in DOMAIN us |-> IF BKind(us[i]) = "cset" THEN m.objs[us[i]].at.r ELSE << >>])

Ask(q, x, k, r) == [q |-> q, x |-> x, k |-> k, r |-> r]
SpatialKinds == << "site", "building", "storey", "space" >>
ElementKinds == {"wall", "slab", "roof", "window", "shading", "opening", "space"}
AsksOf(h) ==
  LET k == BKind(h) IN
  (IF k \in {"project"} \cup Range(SpatialKinds) THEN [i \in 1..4 |-> Ask("parts", h, SpatialKinds[i], BuiltParts(h, SpatialKinds[i]))] ELSE << >>) \o
  (IF k \in {"site", "building", "storey"} THEN << Ask("content", h, "", From(m.cont, h)) >> ELSE << >>) \o
  (IF k \in ElementKinds THEN << Ask("voids", h, "", From(m.voids, h)), Ask("layers", h, "", BuiltLayers(h)), Ask("constituents", h, "", BuiltConstituents(h)) >> ELSE << >>) \o
  (IF k \in {"wall", "slab", "roof", "window"} THEN << Ask("type", h, "", To(m.typed, h)) >> ELSE << >>)
Asks == SelectSeq(Join([i \in 1..(Len(m.objs) + 1) |-> AsksOf(i - 1)]), LAMBDA a : a.r # << >>)

\* every element is asked for one type and is found below exactly one storey or as part of one
OneType == Scope(m) = "done" => \A i \in DOMAIN m.objs : BKind(i) \in {"wall", "slab", "roof", "window"} => Len(To(m.typed, i)) = 1
OneHome == Scope(m) = "done" => \A i \in DOMAIN m.objs : BKind(i) \in {"wall", "slab", "roof", "window", "shading", "site", "building", "storey", "space"} =>
                                   Len(To(m.cont, i)) + Len(To(m.agg, i)) = 1
EmitAsks == Scope(m) = "done" => PrintT("@@" \o ToJson([prog |-> prog, who |-> Who, objs |-> m.objs, voids |-> m.voids, fills |-> m.fills, props |-> m.props, asks |-> Asks]))
=============================================================================
