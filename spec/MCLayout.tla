------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* Every way of looking at small buffers in up to Limit steps.             *)
(***************************************************************************)
EXTENDS Layout, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Sides, Limit
VARIABLES v, start, steps
vars == << v, start, steps >>
Init == /\ \E r \in Sides, c \in Sides : start = << r, c >> /\ v = Plain(r, c)
        /\ steps = << >>
Next == /\ Len(steps) < Limit
        /\ \E s \in Steps : /\ Possible(v, s)
                            /\ v' = Look(v, s)
                            /\ steps' = Append(steps, s)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
Places == { << i, j >> : i \in 0..(v.rows - 1), j \in 0..(v.cols - 1) }
\* every element has a cell of its own, inside the buffer
Own == /\ \A p \in Places : Cell(v, p[1], p[2]) \in 0..(v.size - 1)
       /\ Cardinality({ Cell(v, p[1], p[2]) : p \in Places }) = Cardinality(Places)
\* looking the opposite way twice, or turning twice, changes nothing
Undone == \A s \in {"t", "i0", "i1"} : Look(Look(v, s), s) = v
\* the buffer worked out from the end leads to the shape wanted
Fits == LET w == View(steps, v.rows, v.cols) IN w.rows = v.rows /\ w.cols = v.cols
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
Scenario == [ steps |-> steps ]
Dump == start # << 16, 16 >> \/ CSVWrite("%1$s", << ToJson(Scenario) >>, IOEnv.OUT)
=============================================================================
