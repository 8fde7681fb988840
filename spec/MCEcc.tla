-------------------------------- MODULE MCEcc --------------------------------
(***************************************************************************)
(* The histories of one coded message at the real sizes, contents left     *)
(* open: which domain, how long, what filler, how many flips per codeword. *)
(* Every complete history is written out and replayed on the code.         *)
(***************************************************************************)
EXTENDS Ecc, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Domains, WordCounts
VARIABLES D, n, fill, plan, phase
vars == << D, n, fill, plan, phase >>

\* lengths around the borders of the words
Lengths(d) ==
  IF CodeOf(d) = "none" THEN {0, 1, 2, 3, 7, 13, 40, 255, 256, 257, 512}
  ELSE LET k == KBytes(CodeOf(d))
       IN  { x \in { (w * k) - 2 + o : w \in WordCounts, o \in {-1, 0, 1} } \cup {0, 1, 255, 256} :
               x >= 0 /\ (x < 600 \/ CodeOf(d) # "TC128") }

Init == /\ D \in Domains /\ n \in Lengths(D)
        /\ fill = "none" /\ plan = "none" /\ phase = "coded"

Fits(x) == CodedLen(n, D) + x <= D
Fill == /\ phase = "coded" /\ fill = "none" /\ plan = "none"
        /\ fill' \in {"one", "part", "full"}
        /\ fill' = "one" => Fits(1)
        /\ fill' = "part" => CodeOf(D) # "none" /\ Fits(NBytes(CodeOf(D)) - 1)
        /\ fill' = "full" => Fits(2)
        /\ UNCHANGED << D, n, plan, phase >>
\* which codewords are hit, and how often
Flip == /\ phase = "coded" /\ plan = "none" /\ CodeOf(D) # "none"
        /\ plan' \in {"one first", "two first", "two last", "two each", "mixed"}
        /\ UNCHANGED << D, n, fill, phase >>
Read == /\ phase = "coded" /\ phase' = "read" /\ UNCHANGED << D, n, fill, plan >>

Next == Fill \/ Flip \/ Read
Spec == Init /\ [][Next]_vars

\* the whole message travels, in whole codewords, with the header in the first
Shape == CodeOf(D) # "none" =>
           /\ CodedLen(n, D) % NBytes(CodeOf(D)) = 0
           /\ Words(n, D) >= 1
           /\ Words(n, D) * KBytes(CodeOf(D)) >= n + HeaderLen
           /\ (Words(n, D) - 1) * KBytes(CodeOf(D)) < n + HeaderLen
Dump == phase = "read" => CSVWrite("%1$s", << ToJson([D |-> D, n |-> n, fill |-> fill, plan |-> plan]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
