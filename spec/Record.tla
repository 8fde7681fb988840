------------------------------- MODULE Record --------------------------------
(***************************************************************************)
(* The watermark record (C07): perturbation vector, signature and text.    *)
(* Bits are 0/1, bytes 0..255; the text is its UTF-8 bytes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxPart == 255
Bytes8(n) == (n + 7) \div 8

\* least significant bit first, last byte filled with zeros
Bit(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
RECURSIVE Weigh(_, _, _)
Weigh(bits, from, k) == IF k = 8 THEN 0 ELSE (2 ^ k) * Bit(bits, from + k) + Weigh(bits, from, k + 1)
Pack(bits) == [ i \in 1..Bytes8(Len(bits)) |-> Weigh(bits, (8 * (i - 1)) + 1, 0) ]
Unpack(bs, n) == [ i \in 1..n |-> (bs[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2 ]

Fits(p, s, t) == Len(p) <= MaxPart /\ Len(s) <= MaxPart /\ Len(t) <= MaxPart
Record(p, s, t) == << Len(p), Len(s), Len(t) >> \o Pack(p) \o s \o t

\* what a record at the beginning of bs says
PartP(bs) == Unpack(SubSeq(bs, 4, 3 + Bytes8(bs[1])), bs[1])
PartS(bs) == LET a == 3 + Bytes8(bs[1]) IN SubSeq(bs, a + 1, a + bs[2])
PartT(bs) == LET a == 3 + Bytes8(bs[1]) + bs[2] IN SubSeq(bs, a + 1, a + bs[3])
WholeRecord(bs) == Len(bs) >= 3 /\ Len(bs) >= 3 + Bytes8(bs[1]) + bs[2] + bs[3]
=============================================================================
