----------------------------- MODULE MCThreeBit -----------------------------
(***************************************************************************)
(* Life of one feature: it is quantised, then drifts unit by unit (in      *)
(* either direction, through any history), and can be restored at any      *)
(* time.  Every reachable <<f, g>> is also written out as a scenario for   *)
(* the replay against the implementation.                                  *)
(***************************************************************************)
EXTENDS ThreeBit, TLC, Json, IOUtils, CSV
CONSTANTS Halves, Cells, Drift
VARIABLES H, f, p, g
vars == << H, f, p, g >>

Init == /\ H \in Halves
        /\ f \in (-2*H*Cells)..(2*H*Cells)
        /\ p = << >>
        /\ g = f

Quantise == /\ p = << >>
            /\ p' = Bits(f, H)
            /\ UNCHANGED << H, f, g >>

DriftUp   == p # << >> /\ g < f + 2*H*Drift /\ g >= f /\ g' = g + 1 /\ UNCHANGED << H, f, p >>
DriftDown == p # << >> /\ g > f - 2*H*Drift /\ g <= f /\ g' = g - 1 /\ UNCHANGED << H, f, p >>

Next == Quantise \/ DriftUp \/ DriftDown
Spec == Init /\ [][Next]_vars

TypeOK == p = << >> \/ p \in [1..3 -> {0, 1}]

\* C08
RestoredWithinOneStep ==
    (p # << >> /\ Abs(g - f) <= 2*H) => Restore(g, p, H) = Cell(f, H)
\* C09
NeverRestoredBeyond ==
    (p # << >> /\ Abs(g - f) >= 3*H) => Restore(g, p, H) # Cell(f, H)
\* the rule is invariant under moving the grid by four cells (used for large features)
FourCells ==
    p # << >> => /\ Bits(f + 8*H, H) = p
                 /\ Restore(g + 8*H, p, H) = Restore(g, p, H) + 4
                 /\ Restore(g - 80*H, p, H) = Restore(g, p, H) - 40
\* restoring never moves by more than one cell
AtMostOneCell == p # << >> => Abs(Restore(g, p, H) - Cell(g, H)) <= 1

Dump == IF p # << >> /\ "OUT" \in DOMAIN IOEnv
        THEN CSVWrite("%1$s", << ToJson([H |-> H, f |-> f, g |-> g]) >>, IOEnv.OUT)
        ELSE TRUE
Stats == PrintT(<< "STATS", TLCGet("stats").distinct, TLCGet("stats").generated >>)
=============================================================================
