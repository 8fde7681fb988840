---------------------------- MODULE ThreeBitAll -----------------------------
(***************************************************************************)
(* Unbounded form of the theorems of MCThreeBit, for Apalache: every cell, *)
(* every position inside it, every drift and every grid resolution.        *)
(* A feature is cell q and offset r (0 <= r < 2H); a drift is dq whole     *)
(* steps and dr units (0 <= dr < 2H).  Everything stays linear.            *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  H,
  \* @type: Int;
  q,
  \* @type: Int;
  r,
  \* @type: Int;
  dq,
  \* @type: Int;
  dr

Init == /\ H \in Int /\ q \in Int /\ r \in Int /\ dq \in Int /\ dr \in Int
        /\ H > 0 /\ r >= 0 /\ r < 2*H /\ dr >= 0 /\ dr < 2*H
Next == UNCHANGED << H, q, r, dq, dr >>

\* the drifted feature
Carry == IF r + dr >= 2*H THEN 1 ELSE 0
gq == q + dq + Carry
gr == r + dr - 2*H*Carry

Residue(c) == (c - 1) % 4
HalfOf(o) == IF o >= H THEN 1 ELSE 0
given == Residue(q)
now == Residue(gq)
Restored ==
    IF now = (given - 1) % 4 /\ (HalfOf(r) = 0 \/ HalfOf(gr) = 1) THEN gq + 1
    ELSE IF now = (given + 1) % 4 /\ (HalfOf(r) = 1 \/ HalfOf(gr) = 0) THEN gq - 1
    ELSE gq

WithinOneStep == dq = 0 \/ dq = -1 \/ (dq = 1 /\ dr = 0)
BeyondOneAndAHalf ==
    \/ dq >= 2 \/ (dq = 1 /\ dr >= H)
    \/ dq <= -3 \/ (dq = -2 /\ dr <= H)

Inv == /\ (WithinOneStep => Restored = q)
       /\ (BeyondOneAndAHalf => Restored # q)
       /\ Restored - gq >= -1 /\ Restored - gq <= 1
=============================================================================
