------------------------------- MODULE ApiRuns -------------------------------
(***************************************************************************)
(* Histories of the machine of Api: construct an object, call setters.      *)
(* Star: every class with every argument of every parameter of its          *)
(* constructor, then up to Depth setters with every argument.               *)
(* Repeat: plain arguments, then Depth calls of at most two setters, with    *)
(* changing arguments.                                                      *)
(* Walk: a random class, random arguments, Depth random setters.            *)
(***************************************************************************)
EXTENDS Api, Json

CONSTANTS Mode, Depth, Pairs     \* Pairs: two deviating constructor arguments at a time

NoObj == [at |-> << >>, li |-> << >>]
Init == cls = 0 /\ ctor = << >> /\ calls = << >> /\ obj = NoObj /\ stored = 0

(* the forms of every parameter, computed once *)
CtorForms == [c \in CN |-> [i \in DOMAIN Classes[c].par |-> TLCEval(Forms(Classes[c].par[i], i))]]
CallForms(i, n) == TLCEval(Forms(Classes[cls].sets[i].p, n))

Begin(c, args) ==
  /\ cls' = c /\ ctor' = args /\ calls' = << >>
  /\ obj' = [at |-> ArgVals(c, args), li |-> [a \in Appended(c) |-> << >>]]
  /\ stored' = SumZ(args) + 1

Plain == [c \in CN |-> TLCEval(Args0(c))]
StarBegin ==
  \E c \in CN :
    \/ Begin(c, Plain[c])
    \/ \E i \in DOMAIN Classes[c].par : \E x \in DOMAIN CtorForms[c][i] :
         \/ Begin(c, [Plain[c] EXCEPT ![i] = CtorForms[c][i][x]])
         \/ /\ Pairs
            /\ \E j \in DOMAIN Classes[c].par : j > i /\ \E y \in DOMAIN CtorForms[c][j] :
                 Begin(c, [Plain[c] EXCEPT ![i] = CtorForms[c][i][x], ![j] = CtorForms[c][j][y]])
StarCall ==
  /\ Len(calls) < Depth
  /\ calls = << >> => ctor = Plain[cls]
  /\ \E i \in DOMAIN Classes[cls].sets : LET fs == CallForms(i, Len(calls) + 7) IN
       \E x \in DOMAIN fs : Call(i, fs[x])

WalkBegin ==
  LET c == RandomElement(CN) IN
  \E d \in {c} : Begin(d, TLCEval([i \in DOMAIN Classes[d].par |->
                    LET fs == CtorForms[d][i] IN fs[RandomElement(DOMAIN fs)]]))
WalkCall ==
  /\ Len(calls) < Depth /\ Classes[cls].sets # << >>
  /\ \E i \in {RandomElement(DOMAIN Classes[cls].sets)} : LET fs == CallForms(i, Len(calls) + 7) IN
       \E x \in {RandomElement(DOMAIN fs)} : Call(i, fs[x])

RepeatBegin == \E c \in CN : Classes[c].sets # << >> /\ Begin(c, Plain[c])
RepeatCall ==
  /\ Len(calls) < Depth
  /\ \E i \in DOMAIN Classes[cls].sets : LET fs == CallForms(i, Len(calls) + 7) IN
       /\ Cardinality({ calls[k].i : k \in DOMAIN calls } \cup {i}) <= 2
       /\ Call(i, fs[((Len(calls) + i) % Len(fs)) + 1])

Next == CASE Mode = "walk"   -> IF cls = 0 THEN WalkBegin ELSE WalkCall
          [] Mode = "star"   -> IF cls = 0 THEN StarBegin ELSE StarCall
          [] Mode = "repeat" -> IF cls = 0 THEN RepeatBegin ELSE RepeatCall
Spec == Init /\ [][Next]_vars

Begun == cls # 0
Law == Begun => LastWins /\ Appends /\ Frame /\ Stores
Emit == (Begun /\ (Mode # "star" => (Len(calls) = Depth \/ (Begun /\ Classes[cls].sets = << >>)))) => PrintT("@@" \o ToJson(Case))
(* the tables, for the harness generator and the base model *)
DumpTable == cls = 0 => PrintT("@@" \o ToJson(
  [classes |-> Classes, base |-> [c \in CN |-> << IdA(Classes[c].ty), IdB(Classes[c].ty), BaseText(Classes[c].ty) >>],
   samples |-> Plain, enums |-> EnumTable]))
=============================================================================
