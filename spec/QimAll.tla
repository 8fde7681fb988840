------------------------------- MODULE QimAll --------------------------------
(***************************************************************************)
(* The quantisation lemma behind C01 and C02 for all integers (Apalache):  *)
(* r is the distance of a coefficient from its nearest multiple of the     *)
(* depth, t the place the bit wants, k the whole-pixel shift applied.      *)
(* (Multiples of the depth cancel, so the block sum itself drops out.)     *)
(* e is what a later disturbance adds to the coefficient (C20).            *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  Q,
  \* @type: Int;
  r,
  \* @type: Int;
  k,
  \* @type: Int;
  bit,
  \* @type: Int;
  b,
  \* @type: Int;
  e
\* DD = 4*Q, so that a quarter of the depth is Q
DD == 4 * Q
T == IF bit = 1 THEN Q ELSE -Q
\* shift of one pixel, in units of a block sum coefficient; b*b unrolled
Px == IF b = 2 THEN 64 * 4 ELSE IF b = 4 THEN 64 * 16 ELSE IF b = 8 THEN 64 * 64 ELSE IF b = 16 THEN 64 * 256 ELSE 64 * 1024
Moved == IF b = 2 THEN 256 * k ELSE IF b = 4 THEN 1024 * k ELSE IF b = 8 THEN 4096 * k ELSE IF b = 16 THEN 16384 * k ELSE 65536 * k
Init ==
  /\ Q \in Int /\ Q > 0
  /\ b \in {2, 4, 8, 16, 32}
  /\ bit \in {0, 1}
  /\ r \in Int /\ 2 * r <= DD /\ -(2 * r) <= DD
  /\ k \in Int
  \* k is a nearest integer to (T - r) / Px
  /\ 2 * (Moved - (T - r)) <= Px /\ -(2 * (Moved - (T - r))) <= Px
  /\ e \in Int
Next == UNCHANGED << Q, r, k, bit, b, e >>
New == r + Moved
\* DD > 128*b*b is DD > 2*Px
Inv ==
  /\ (DD > 2 * Px) =>
       /\ (bit = 1 => New > 0 /\ 2 * New < DD)
       /\ (bit = 0 => New < 0 /\ -(2 * New) < DD)
  \* a quarter of the depth less half a pixel of every coefficient is no harm
  /\ (2 * e < DD \div 2 - Px /\ -(2 * e) < DD \div 2 - Px) =>
       /\ (bit = 1 => New + e > 0 /\ 2 * (New + e) < DD)
       /\ (bit = 0 => New + e < 0 /\ -(2 * (New + e)) < DD)
  \* |k| <= ceil(3*DD / (4*Px)):  4*Px*(|k| - 1) < 3*DD
  /\ 4 * (Moved - Px) < 3 * DD
  /\ 4 * (-Moved - Px) < 3 * DD
=============================================================================
