----------------------------------- MODULE DiskRuns -----------------------------------
(***************************************************************************)
(* Histories of Disk: all of them up to a length with few pieces, and      *)
(* random ones with texts that a careless reader of files would alter.     *)
(***************************************************************************)
EXTENDS Disk, Json

CONSTANTS Walk, Depth

\* names of materials as they stand in the file; <..> are codes the check replaces by bytes
Names == << "a", "<NL>b", "x<CR><NL>y", "<TAB>", "  padded  ", "Stra<U+00DF>e <U+65E5><U+672C>", "<BOM>", "<NUL>", "a<CR>", "ISO-10303-21;", "ENDSEC;", "<EMOJI>", "", "/* no comment */", "<NBSP>", "long" >>
Places == << "a.ifc", "b", "Z<U+00FC>rich plan.txt" >>
VARIABLE hist
vars == << mem, disk, res, hist >>
Pick(s, x) == s[(x % Len(s)) + 1]
Dice == { TLCEval([i \in 1..8 |-> RandomElement(0..(997 + Len(hist)))]) }

Do(o) == /\ CASE o.op = "load" -> Load(o.p)
              [] o.op = "save" -> Save(o.p)
              [] o.op = "add"  -> Add(o.x)
              [] o.op = "spoil" -> Spoil(o.p, o.i, o.x)
              [] o.op = "tear" -> Tear(o.p, o.i)
              [] o.op = "erase" -> Erase(o.p)
         /\ hist' = Append(hist, [o |-> o, ok |-> res', mem |-> mem', file |-> disk'[o.p]])
Op(op, p, i, x) == [op |-> op, p |-> p, i |-> i, x |-> x]
A == Places[1]

WalkNext == \E d \in Dice :
  LET p == Pick(Places, d[1]) x == Pick(Names, d[2]) c == d[3] % 12 n == Len(disk[p]) IN
  IF c < 3 \/ (~Isfile(p) /\ c > 8) THEN Do(Op("load", IF d[5] % 8 = 0 THEN Pick(Paths, d[1]) ELSE p, 0, ""))
  ELSE IF c < 6 \/ ~Isfile(p) THEN Do(Op("add", A, 0, x))
  ELSE IF c < 9 THEN Do(Op("save", p, 0, ""))
  ELSE IF c = 9 THEN Do(Op("spoil", p, 1 + (d[4] % (n + 1)), IF d[5] % 2 = 0 THEN x ELSE Pick(<< Badpiece, Stray, Header, Footer, Badname >>, d[6])))
  ELSE IF c = 10 /\ n > 0 THEN Do(Op("tear", p, 1 + (d[4] % n), ""))
  ELSE Do(Op("erase", p, 0, ""))
SearchNext == \/ \E p \in {A, Paths[3], Paths[5]} : Do(Op("load", p, 0, ""))
              \/ Do(Op("save", A, 0, ""))
              \/ \E i \in DOMAIN Names : Len(mem) < 2 /\ Do(Op("add", A, 0, Names[((i + Len(mem) * 3) % Len(Names)) + 1]))
              \/ \E i \in 1..(Len(disk[A]) + 1), x \in {Badpiece, Badname, Stray} : Isfile(A) /\ Do(Op("spoil", A, i, x))
              \/ \E i \in DOMAIN disk[A] : Isfile(A) /\ Do(Op("tear", A, i, ""))
              \/ Isfile(A) /\ Do(Op("erase", A, 0, ""))
Init == mem = << >> /\ disk = Empty /\ res = TRUE /\ hist = << >>
\* the last operation of a history loads
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN \E p \in (IF Walk THEN { Pick(Places, Len(mem)) } ELSE {A}) : Do(Op("load", p, 0, ""))
           ELSE IF Walk THEN WalkNext ELSE SearchNext
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
