---------------------------------- MODULE GuidBad ----------------------------------
(***************************************************************************)
(* Texts that are no global ids: a valid one with one character replaced   *)
(* by one outside the alphabet, with a first character above 3, or with    *)
(* characters missing or added.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Base == "1a$Z_09zAbCdEfGhIjKlMn"
Alphabet == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$"
Outside == { " ", "-", "+", "/", "=", ".", ",", ";", "(", "#", "!", "\"", "@", "[", "`", "{", ":", "<U+00C4>", "<U+FF10>" }

VARIABLES text, kind
Put(i, c) == SubSeq(Base, 1, i - 1) \o c \o SubSeq(Base, i + 1, 22)
Init == text = Base /\ kind = "valid"
Next == /\ kind = "valid"
        /\ \/ \E i \in 1..22 : \E c \in Outside : text' = Put(i, c) /\ kind' = "character"
           \/ \E k \in 5..64 : text' = Put(1, SubSeq(Alphabet, k, k)) /\ kind' = "first"
           \/ \E k \in 0..21 : text' = SubSeq(Base, 1, k) /\ kind' = "short"
           \/ \E k \in 1..22 : text' = Base \o SubSeq(Base, 1, k) /\ kind' = "long"
           \/ \E k \in 1..4 : text' = SubSeq(Alphabet, k, k) \o SubSeq(Base, 2, 22) /\ kind' = "fine"
           \/ text' = " " \o Base /\ kind' = "long"
           \/ text' = Base \o " " /\ kind' = "long"
Spec == Init /\ [][Next]_<<text, kind>>
Emit == PrintT("@@" \o ToJson([text |-> text, kind |-> kind]))
=============================================================================
