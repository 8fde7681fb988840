------------------------------ MODULE MCRecord -------------------------------
(***************************************************************************)
(* Every record with small parts, trailing bytes included, reads back;     *)
(* and the part lengths to be replayed.                                    *)
(***************************************************************************)
EXTENDS Record, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Bytes, MaxP, MaxS, MaxT, MaxTail, Sizes
VARIABLES p, s, t, tail, sizes
vars == << p, s, t, tail, sizes >>
Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Init == \/ /\ p \in Seqs({0, 1}, MaxP) /\ s \in Seqs(Bytes, MaxS) /\ t \in Seqs(Bytes, MaxT)
           /\ tail \in Seqs(Bytes, MaxTail) /\ sizes = << >>
        \/ /\ p = << >> /\ s = << >> /\ t = << >> /\ tail = << >>
           /\ sizes \in Sizes \X Sizes \X Sizes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
ReadsBack == sizes = << >> =>
  \E b \in { Record(p, s, t) \o tail } : WholeRecord(b) /\ PartP(b) = p /\ PartS(b) = s /\ PartT(b) = t
Dump == sizes # << >> => CSVWrite("%1$s", << ToJson([p |-> sizes[1], s |-> sizes[2], t |-> sizes[3]]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
