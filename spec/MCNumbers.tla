------------------------------ MODULE MCNumbers ------------------------------
(***************************************************************************)
(* Sources of pseudo-random numbers that are seeded and drawn from in any  *)
(* order: what is drawn depends on the seed and the count alone.  The      *)
(* histories are written out and replayed.                                 *)
(***************************************************************************)
EXTENDS Numbers, Json, IOUtils, CSV
CONSTANTS Sources, Seeds, Limit
VARIABLES at, hist, drawn
vars == << at, hist, drawn >>
Ranges == { << 0, 1 >>, << -2, 5 >>, << -1000, 1000 >>, << 7, 7 >>, << 5, -2 >> }
Init == at = [ i \in Sources |-> << i, 0 >> ] /\ hist = << [op |-> "start", i |-> 0, s |-> 0, a |-> 0, b |-> 0] >> /\ drawn = {}
Op(o, i, s, a, b) == hist' = Append(hist, [op |-> o, i |-> i, s |-> s, a |-> a, b |-> b])
Reseed == \E i \in Sources, s \in Seeds : at' = [at EXCEPT ![i] = << s, 0 >>] /\ Op("seed", i, s, 0, 0) /\ UNCHANGED drawn
\* the value is a symbol of its own for every seed and position
Next1(i) == at' = [at EXCEPT ![i] = << @[1], @[2] + 1 >>] /\ drawn' = drawn \cup { << at[i][1], at[i][2] + 1, << at[i][1], at[i][2] + 1 >> >> }
Unit == \E i \in Sources : Next1(i) /\ Op("unit", i, 0, 0, 0)
Stretch == \E i \in Sources, r \in Ranges : Next1(i) /\ Op("range", i, 0, r[1], r[2])
Next == Len(hist) <= Limit /\ (Reseed \/ Unit \/ Stretch)
Spec == Init /\ [][Next]_vars
Sure == Consistent(drawn)
Dump == Len(hist) = Limit + 1 => CSVWrite("%1$s", << ToJson([ops |-> Tail(hist)]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
\* the factorial table: each row the one before, times its number; no limb lost
VARIABLE n
FInit == at = << >> /\ hist = << >> /\ drawn = {} /\ n = 0
FNext == n < 170 /\ n' = n + 1 /\ UNCHANGED vars
FSpec == FInit /\ [][FNext]_<< vars, n >>
Table == Factorials(170)
Rows == /\ Sound(Table[n + 1]) /\ ~Negative(Table[n + 1])
        /\ (n > 0 => Table[n + 1] = Times(Table[n], n) /\ Leq(Table[n], Table[n + 1]))
        /\ Close(Table[n + 1], Table[n + 1])
HSpec == Init /\ n = 0 /\ [][Next /\ UNCHANGED n]_<< vars, n >>
=============================================================================
