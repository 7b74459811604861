------------------------------- MODULE LoaderPerm -------------------------------
(***************************************************************************)
(* Four fixed statements (with forward, backward and circular references)  *)
(* in every order, under every choice of numbers from a pool.              *)
(***************************************************************************)
EXTENDS Loader

CONSTANTS Pool        \* numbers to choose from
PoolQuick == {"1", "2", "10", "9", "18446744073709551615"}
PoolDeep  == {"0", "1", "2", "9", "10", "99", "100", "4294967296", "18446744073709551615"}

Stmts(a, b, c, d) == <<
  Stmt(a, EntOf("LocalPlacement"), << Ref(b), Ref(c) >>),
  Stmt(b, EntOf("LocalPlacement"), << Ref(a), Ref(c) >>),
  Opaque(c, "IFCX('#" \o a \o "=IFCWALL();',#" \o d \o ")"),
  Stmt(d, EntOf("MonetaryUnit"), << Str("m" \o d) >>) >>

Perms == { p \in [1..4 -> 1..4] : \A i, j \in 1..4 : p[i] = p[j] => i = j }

Init == /\ \E a, b, c, d \in Pool : Cardinality({a, b, c, d}) = 4 /\
             \E p \in Perms : file = [i \in 1..4 |-> Stmts(a, b, c, d)[p[i]]]
        /\ LInit
Next == LNext
Spec == Init /\ [][Next]_lvars
AlwaysAccepted == verdict # "rejected"
Emit == Done => PrintT("@@" \o ToJson(Summary))
=============================================================================
