-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Integers to bytes and hex text (C15).  A wide integer is a sequence of  *)
(* 16-bit limbs of its two's complement, least significant limb first;     *)
(* text is a sequence of character codes.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* little-endian bytes of a limb and of a list of integers of w limbs
LimbBytes(x) == << x % 256, x \div 256 >>
BytesOfLimbs(ls) == [ i \in 1..(2 * Len(ls)) |-> LimbBytes(ls[(i + 1) \div 2])[((i - 1) % 2) + 1] ]
Flatten(ints, w) == [ i \in 1..(w * Len(ints)) |-> ints[((i - 1) \div w) + 1][((i - 1) % w) + 1] ]
ToBytes(ints, w) == BytesOfLimbs(Flatten(ints, w))

\* the reverse; only for whole integers
LimbAt(bs, i) == bs[(2 * i) - 1] + (256 * bs[2 * i])
FromBytes(bs, w) == [ n \in 1..(Len(bs) \div (2 * w)) |-> [ j \in 1..w |-> LimbAt(bs, ((n - 1) * w) + j) ] ]
Whole(bs, w) == Len(bs) % (2 * w) = 0

Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
ToHex(bs) == [ i \in 1..(2 * Len(bs)) |->
                 IF i % 2 = 1 THEN Digit(bs[(i + 1) \div 2] \div 16) ELSE Digit(bs[i \div 2] % 16) ]
\* value of a hex digit, -1 for any other character
Value(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 97..102 -> ch - 87 [] ch \in 65..70 -> ch - 55 [] OTHER -> -1
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : Value(t[i]) >= 0
FromHex(t) == [ i \in 1..(Len(t) \div 2) |-> (16 * Value(t[(2 * i) - 1])) + Value(t[2 * i]) ]
=============================================================================
