------------------------------------ MODULE Guid ------------------------------------
(***************************************************************************)
(* Global ids: 128 bits, and the 22 digits to base 64 (IFC alphabet) that  *)
(* stand for them.  The first digit holds two bits, the others six each.   *)
(* A walk starts from a few ids and changes digits or bits.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Depth,          \* number of changes
          Walk            \* random changes, or all of them

Alphabet == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$"
Hexits   == "0123456789abcdef"
Char(a, d) == SubSeq(a, d + 1, d + 1)
Text(a, q) == FoldLeft(LAMBDA s, d : s \o Char(a, d), "", q)

Pow == << 32, 16, 8, 4, 2, 1 >>
DigitBits(d, w) == [i \in 1..w |-> (d \div Pow[6 - w + i]) % 2]        \* the low w bits of d, highest first
Width(i) == IF i = 1 THEN 2 ELSE 6

(* form to bits and back *)
Offset(i) == IF i = 1 THEN 0 ELSE 2 + 6 * (i - 2)
Bits(f) == [b \in 1..128 |-> IF b <= 2 THEN DigitBits(f[1], 2)[b] ELSE DigitBits(f[((b - 3) \div 6) + 2], 6)[((b - 3) % 6) + 1]]
Number(bs) == FoldLeft(LAMBDA n, b : 2 * n + b, 0, bs)
Form(bs) == [i \in 1..22 |-> Number(SubSeq(bs, Offset(i) + 1, Offset(i) + Width(i)))]
Hex(bs) == [i \in 1..32 |-> Number(SubSeq(bs, 4 * i - 3, 4 * i))]

Starts == { [i \in 1..22 |-> 0],
            [i \in 1..22 |-> IF i = 1 THEN 3 ELSE 63],
            [i \in 1..22 |-> IF i = 1 THEN 1 ELSE (i * 7) % 64],
            [i \in 1..22 |-> IF i = 1 THEN 2 ELSE 63 - ((i * 11) % 64)] }

VARIABLES form, n
vars == << form, n >>
Init == form \in Starts /\ n = 0

SetDigit(i, d) == form' = [form EXCEPT ![i] = d]
FlipBit(b) == form' = Form([Bits(form) EXCEPT ![b] = 1 - @])
Digits(i) == IF i = 1 THEN 0..3 ELSE 0..63
Next == /\ n < Depth
        /\ n' = n + 1
        /\ IF Walk
           THEN \/ \E i \in { RandomElement(1..22) } : \E d \in { RandomElement(Digits(i)) } : SetDigit(i, d)
                \/ \E b \in { RandomElement(1..128) } : FlipBit(b)
                \/ \E k \in { RandomElement(1..1000) } : form' = [i \in 1..22 |-> IF i = 1 THEN k % 4 ELSE RandomElement(0..63)]
           ELSE \/ \E i \in 1..22 : \E d \in Digits(i) : SetDigit(i, d)
                \/ \E b \in 1..128 : FlipBit(b)
Spec == Init /\ [][Next]_vars

(* the two forms determine each other *)
BothWays == Form(Bits(form)) = form /\ form[1] \in 0..3

Emit == PrintT("@@" \o ToJson([form |-> Text(Alphabet, form), hex |-> Text(Hexits, Hex(Bits(form)))]))
=============================================================================
