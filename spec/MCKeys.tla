------------------------------- MODULE MCKeys --------------------------------
(***************************************************************************)
(* Makers (threads of several processes) generate pairs from one ideal     *)
(* source, sign with them and verify with all public keys.  Histories are  *)
(* written out and replayed.                                               *)
(***************************************************************************)
EXTENDS Keys, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Makers, Limit, Datas
VARIABLES made, asked
vars == << issued, pairs, made, asked >>
Init == issued = {} /\ pairs = {} /\ made = << >> /\ asked = << >>
\* the source never repeats itself: the next secret is the next number
Make == /\ asked = << >> /\ Len(made) < Limit /\ issued = {}
        /\ \E m \in Makers : made' = Append(made, m)
        /\ Generate(Len(made) + 1, << "public", Len(made) + 1 >>)
        /\ UNCHANGED << issued, asked >>
DoSign == /\ asked = << >> /\ Cardinality(issued) < 2
          /\ \E p \in pairs, d \in Datas : Sign(p[2], d, << p[1], d >>)
          /\ UNCHANGED << pairs, made, asked >>
Ask == /\ asked = << >>
       /\ \E i \in issued, p \in pairs, d \in Datas :
            asked' = << i[1][2], i[2], p[2][2], d, Verifies(p[2], d, i[3]) >>
       /\ UNCHANGED << issued, pairs, made >>
Next == Make \/ DoSign \/ Ask
Spec == Init /\ [][Next]_vars
Distinct == Cardinality(pairs) = Len(made) /\ \A p, q \in pairs : p # q => p[1] # q[1] /\ p[2] # q[2]
OwnOnly == asked # << >> => (asked[5] <=> asked[1] = asked[3] /\ asked[2] = asked[4])
Dump == asked # << >> /\ Cardinality(issued) = 1 =>
          CSVWrite("%1$s", << ToJson([made |-> made, k |-> asked[1], d |-> asked[2], vk |-> asked[3], vd |-> asked[4]]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
