------------------------------- MODULE MCEmbed -------------------------------
(***************************************************************************)
(* Writing a mark bit by bit into a domain, in the order of the layout:    *)
(* a request is refused before anything is written or written completely;  *)
(* every bit has a coefficient of its own.  The domains, levels and        *)
(* payload lengths (around each limit) are written out and replayed.       *)
(***************************************************************************)
EXTENDS Embed, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Rows, Cols, Levels, Tops
VARIABLES r, c, L, n, odd, written, phase
vars == << r, c, L, n, odd, written, phase >>

\* payload lengths around what the domain holds
Cap == Capacity(r * Side(L), c * Side(L), L)
K(cap) == IF CodeOf(cap) = "none" THEN 1 ELSE KBytes(CodeOf(cap))
Most(cap) == IF CodeOf(cap) = "none" THEN cap - 4
             ELSE ((cap \div NBytes(CodeOf(cap))) * KBytes(CodeOf(cap))) - 4
Lengths(cap) == { x \in { Most(cap) + o : o \in {-(K(cap)), -1, 0, 1, K(cap)} } \cup {0, 1, cap, Most(cap) \div 2} : x >= 0 }

Init == /\ r \in Rows /\ c \in Cols /\ L \in Levels
        /\ r * c <= Tops
        /\ n \in Lengths(Cap)
        /\ odd \in {0, 1, 2} /\ (odd # 0 => n = 0 /\ r + c < 40)
        /\ written = 0 /\ phase = "asked"
\* sides that are no multiple of 2^levels
R1 == (r * Side(L)) + (IF odd = 1 THEN Side(L) \div 2 ELSE 0)
C1 == (c * Side(L)) + (IF odd = 2 THEN Side(L) \div 2 ELSE 0)
Bits == 8 * Written(n, Cap)
Decide == /\ phase = "asked"
          /\ phase' = IF Accepts(R1, C1, L, n) THEN "writing" ELSE "refused"
          /\ UNCHANGED << r, c, L, n, odd, written >>
\* written in strides, to keep the number of states small
Write == /\ phase = "writing"
         /\ written' = IF written + c < Bits THEN written + c ELSE Bits
         /\ phase' = IF written' = Bits THEN "done" ELSE "writing"
         /\ UNCHANGED << r, c, L, n, odd >>
Next == Decide \/ Write
Spec == Init /\ [][Next]_vars

AllOrNothing == /\ (phase = "refused" => written = 0)
                /\ (phase = "done" => written = 8 * Written(n, Cap) /\ written >= 8 * (n + 4))
InDomain == written > 0 => LET p == PosOf(written - 1, c) IN p[1] < r /\ p[2] < c
OwnPlace == phase = "done" /\ r * c <= 300 => Cardinality({ PosOf(i, c) : i \in 0..(written - 1) }) = written
\* the largest accepted length is the one computed, and all below are accepted
Monotone == phase = "done" /\ n > 0 => Accepts(R1, C1, L, n - 1)
Dump == phase \in {"refused", "done"} =>
          CSVWrite("%1$s", << ToJson([R |-> R1, C |-> C1, L |-> L, n |-> n, ok |-> phase = "done"]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
