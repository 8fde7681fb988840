------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers beyond the 32 bits of TLC: sequences of limbs in base 2^13,    *)
(* least significant first; every limb but the last lies in 0..2^13-1, the *)
(* last one carries the sign.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
Base == 8192
Carry(s) ==
  LET step(acc, x) == << Append(acc[1], (x + acc[2]) % Base), (x + acc[2]) \div Base >>
      low == FoldLeft(step, << << >>, 0 >>, SubSeq(s, 1, Len(s) - 1))
  IN Append(low[1], s[Len(s)] + low[2])
\* an integer of at most 31 bits in n limbs (n >= 3)
Big(v, n) == Carry(<< v >> \o [ i \in 1..(n - 1) |-> 0 ])
Zero(n) == [ i \in 1..n |-> 0 ]
\* the same value in more limbs
Widen(a, n) == LET m == Len(a) IN Carry([ i \in 1..n |-> IF i <= m THEN a[i] ELSE 0 ])
Plus(a, b) == Carry([ i \in 1..Len(a) |-> a[i] + b[i] ])
Minus(a, b) == Carry([ i \in 1..Len(a) |-> a[i] - b[i] ])
\* the product, in Len(a) + Len(b) limbs (the shorter one below 30 limbs)
Column(a, b, c) ==
  LET lo == IF c - Len(b) > 0 THEN c - Len(b) + 1 ELSE 1
      hi == IF c < Len(a) THEN c ELSE Len(a)
  IN FoldLeft(LAMBDA acc, i : acc + (a[i] * b[c + 1 - i]), 0, [ i \in 1..(hi - lo + 1) |-> i + lo - 1 ])
Product(a, b) == Carry([ c \in 1..(Len(a) + Len(b)) |-> IF c = Len(a) + Len(b) THEN 0 ELSE Column(a, b, c) ])
\* the lowest n limbs; nothing may be lost
Trim(a, n) ==
  IF a[Len(a)] < 0
  THEN IF \A i \in (n + 1)..Len(a) : a[i] = (IF i = Len(a) THEN -1 ELSE Base - 1)
       THEN [ i \in 1..n |-> IF i = n THEN a[i] - Base ELSE a[i] ] ELSE Assert(FALSE, "too few limbs")
  ELSE IF \A i \in (n + 1)..Len(a) : a[i] = 0 THEN SubSeq(a, 1, n) ELSE Assert(FALSE, "too few limbs")
\* by an integer of at most 31 bits
Times(a, k) == IF k < 131072 /\ -k < 131072 THEN Carry([ i \in 1..Len(a) |-> a[i] * k ])
               ELSE Trim(Product(a, Big(k, 3)), Len(a))
Negative(a) == a[Len(a)] < 0
Leq(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
             IN ~Negative(Minus(Widen(b, n + 1), Widen(a, n + 1)))
\* nothing was lost at the upper end
Sound(a) == a[Len(a)] \in (-1)..(Base - 1)
=============================================================================
