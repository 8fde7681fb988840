------------------------------ MODULE ThreeBit ------------------------------
(***************************************************************************)
(* Three-bit quantisation of a feature (properties C08, C09; used by the   *)
(* life cycle of a channel, C11, C12).                                     *)
(*                                                                         *)
(* A feature is an integer number of grid units; one quantisation step is  *)
(* 2*H units, so a cell is <<2*H*q, 2*H*(q+1)>> and its two halves are H   *)
(* units each.  H is a parameter, so that exact drifts (one step, one and  *)
(* a half steps, one unit more or less) are grid points.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* quantised value: index of the cell
Cell(f, H) == f \div (2 * H)

\* which half of the cell: 0 lower, 1 upper
Half(f, H) == (f \div H) % 2

\* residue of the cell recorded in the perturbation vector
Residue(q) == (q - 1) % 4

\* the three perturbation bits of one feature: residue (high bit first), half
Bits(f, H) == LET r == Residue(Cell(f, H))
              IN  << r \div 2, r % 2, Half(f, H) >>

\* perturbation vector of a list of features
BitsOf(fs, H) == [ i \in 1..(3 * Len(fs)) |->
                     Bits(fs[(i + 2) \div 3], H)[((i - 1) % 3) + 1] ]

\* The restoration rule: the drifted feature g with the recorded bits b.
\* a = "down" : g seems to have dropped into the cell below, add a step
\* a = "up"   : g seems to have risen into the cell above, subtract a step
Direction(g, b, H) ==
    LET given == 2 * b[1] + b[2]
        now   == Residue(Cell(g, H))
    IN  IF now = (given - 1) % 4 THEN "down"
        ELSE IF now = (given + 1) % 4 THEN "up" ELSE "same"

Shift(g, b, H) ==
    LET d == Direction(g, b, H)
        h == Half(g, H)
    IN  IF d = "down" /\ (b[3] = 0 \/ h = 1) THEN 1
        ELSE IF d = "up" /\ (b[3] = 1 \/ h = 0) THEN -1
        ELSE 0

Restore(g, b, H) == Cell(g, H) + Shift(g, b, H)

RestoreAll(gs, bits, H) ==
    [ i \in 1..(Len(bits) \div 3) |->
        Restore(gs[i], << bits[3*i-2], bits[3*i-1], bits[3*i] >>, H) ]

Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
