-------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* How a mark lies in an image (C01-C04).  All quantities are integers:    *)
(* an approximation coefficient is the sum S of its block divided by the   *)
(* block side b; in units of 1/(64*b) it is 64*S, and the embedding depth  *)
(* is the integer DD = 64*b*depth, a multiple of four.                     *)
(***************************************************************************)
EXTENDS Ecc

\* ---- capacity and acceptance (C04)
Side(L) == 2 ^ L
Divisible(R, C, L) == R > 0 /\ C > 0 /\ R % Side(L) = 0 /\ C % Side(L) = 0
Coefficients(R, C, L) == (R \div Side(L)) * (C \div Side(L))
Capacity(R, C, L) == Coefficients(R, C, L) \div 8
MinCapacity == 9
MaxPayload == 65533
\* bytes written for a payload of n bytes: little-endian length, then the framing of Ecc
Written(n, cap) == CodedLen(n + 2, cap)
Accepts(R, C, L, n) ==
  /\ Divisible(R, C, L)
  /\ Capacity(R, C, L) >= MinCapacity
  /\ n <= MaxPayload
  /\ Written(n, Capacity(R, C, L)) <= Capacity(R, C, L)

\* the message handed to the error correction layer
Wrapped(p) == << Len(p) % 256, Len(p) \div 256 >> \o p

\* ---- layout (C03): bit i (0..) of the coded bytes, least significant first
BitOf(c, i) == (c[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2
\* and the coefficient that carries it, row by row
PosOf(i, cols) == << i \div cols, i % cols >>

\* ---- quantisation
\* the integers nearest to a / d; two of them exactly half-way
Near(a, d) == LET q == ((2 * a) + d) \div (2 * d)
              IN  IF ((2 * a) + d) % (2 * d) = 0 THEN {q - 1, q} ELSE {q}
Targets(S, bit, DD) == { (m * DD) + (((2 * bit) - 1) * (DD \div 4)) : m \in Near(64 * S, DD) }
\* whole-pixel shifts that carry the bit
ShiftsFor(S, bit, DD, b) == UNION { Near(t - (64 * S), 64 * b * b) : t \in Targets(S, bit, DD) }
\* no shift is ever longer than three quarters of the depth / b, rounded up
MaxShift(DD, b) == CeilDiv(3 * DD, 256 * b * b)

\* what is read from a block sum: {0}, {1}, or both when it lies on a border
ReadBits(S, DD) == { IF r > 0 THEN 1 ELSE 0 : r \in { (64 * S) - (m * DD) : m \in Near(64 * S, DD) } \ {0} }
                   \cup (IF \E m \in Near(64 * S, DD) : 64 * S = m * DD THEN {0, 1} ELSE {})

Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 255 THEN 255 ELSE v

\* nothing is clamped, whatever is written (C01)
Headroom(lo, hi, DD, b) == /\ 256 * b * b * lo >= (3 * DD) + (256 * b * b)
                           /\ 256 * b * b * (255 - hi) >= (3 * DD) + (256 * b * b)
\* a change of a block sum that no bit minds: less than DD/256 - b*b/2, i.e. a quarter of the depth less half a pixel (C20)
Tolerated(dS, DD, b) == (256 * dS) + (128 * b * b) < DD /\ (128 * b * b) - (256 * dS) < DD
\* deep enough to survive the rounding of pixels
Deep(DD, b) == DD > 128 * b * b
=============================================================================
