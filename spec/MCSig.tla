-------------------------------- MODULE MCSig --------------------------------
(***************************************************************************)
(* Histories of signing, altering and verifying with symbolic signatures.  *)
(* Every verification is written out and replayed with real keys.          *)
(***************************************************************************)
EXTENDS Sig, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Keys, Datas, Alterations
VARIABLES asked
vars == << issued, asked >>

Symbol(k, d, a) == << k, d, a >>
Init == issued = {} /\ asked = << >>
DoSign == /\ asked = << >>
          /\ \E k \in Keys, d \in Datas : Sign(k, d, Symbol(k, d, "none"))
          /\ UNCHANGED asked
\* one verification ends a history
Ask == /\ asked = << >>
       /\ \E i \in issued, a \in Alterations, k \in Keys, d \in Datas :
            asked' = << i[1], i[2], a, k, d, Verifies(k, d, Symbol(i[1], i[2], a)) >>
       /\ UNCHANGED issued
Next == DoSign \/ Ask
Spec == Init /\ [][Next]_vars

Unforgeable == asked # << >> /\ asked[6] =>
                 /\ << asked[4], asked[5], Symbol(asked[4], asked[5], "none") >> \in issued
                 /\ asked[3] = "none" /\ asked[1] = asked[4] /\ asked[2] = asked[5]
Complete == asked # << >> /\ asked[3] = "none" /\ asked[1] = asked[4] /\ asked[2] = asked[5] => asked[6]
\* histories with one signature are enough for the replay; the harness signs everything first as well
Dump == asked # << >> /\ Cardinality(issued) = 1 =>
          CSVWrite("%1$s", << ToJson([k |-> asked[1], d |-> asked[2], alt |-> asked[3], vk |-> asked[4], vd |-> asked[5]]) >>, IOEnv.OUT)
Small == Cardinality(issued) <= 2
Constraint == Small /\ Dump
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
\* ---- data of any length, signed, then verified with an edited copy: edits of every kind at every kind of place
CONSTANT Lengths
VARIABLE edit
evars == << issued, asked, edit >>
Places(n) == { p \in {0, 1, 7, 31, 32, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535} \cup { n \div 2, n - 33, n - 2, n - 1 } : 0 <= p /\ p < n }
Edits(n) == { << "none", 0 >> } \cup { << "flip", p >> : p \in Places(n) } \cup { << "cut", p >> : p \in Places(n) }
            \cup { << "append", k >> : k \in {1, 2, 64} } \cup { << "swap", p >> : p \in Places(n) \ {0} } \cup { << "drop", p >> : p \in Places(n) }
\* the data are named by what was done to them: two names are the same data only if they are the same name
Data(n, e) == << n, e >>
EInit == issued = {} /\ asked = << >> /\ edit = << 0, << "none", 0 >> >>
ESign == /\ issued = {} /\ \E n \in Lengths : Sign(1, Data(n, << "none", 0 >>), << 1, n >>)
         /\ UNCHANGED << asked, edit >>
EAsk == /\ issued # {} /\ asked = << >>
        /\ \E i \in issued : \E e \in Edits(i[2][1]) :
             /\ edit' = << i[2][1], e >>
             /\ asked' = << Verifies(1, Data(i[2][1], e), i[3]) >>
        /\ UNCHANGED issued
ESpec == EInit /\ [][ESign \/ EAsk]_evars
Touched == asked # << >> => (asked[1] <=> edit[2][1] = "none")
EDump == asked # << >> => CSVWrite("%1$s", << ToJson([n |-> edit[1], edit |-> edit[2][1], at |-> edit[2][2]]) >>, IOEnv.OUT)
QInit == Init /\ edit = << >>
QSpec == QInit /\ [][Next /\ UNCHANGED edit]_evars
=============================================================================
