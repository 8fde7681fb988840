-------------------------------- MODULE MCQim --------------------------------
(***************************************************************************)
(* One block under repeated embedding: every block sum, bit and depth in a *)
(* small range.  What was written last is read; the shift is bounded.      *)
(* A disturbance e of the block sum within Tolerance does no harm (C20).   *)
(***************************************************************************)
EXTENDS Embed, TLC
CONSTANTS B, Sums, Depths
AllSums == 0..(255 * B * B)
VARIABLES S, bit, DD, writes, shift, e
vars == << S, bit, DD, writes, shift, e >>
Init == S \in Sums /\ DD \in { 64 * B * d : d \in Depths } /\ bit = 2 /\ writes = 0 /\ shift = 0 /\ e = 0
Write == /\ writes < 2
         /\ \E x \in {0, 1} : \E s \in ShiftsFor(S, x, DD, B) :
              bit' = x /\ S' = S + (B * B * s) /\ shift' = s
         /\ writes' = writes + 1 /\ e' = 0 /\ UNCHANGED DD
Disturb == /\ writes > 0 /\ e = 0 /\ Deep(DD, B)
           /\ \E x \in { k \in {1, 2, 3, DD \div 512, (DD \div 256) - 2, (DD \div 256) - 1, DD \div 256} : Tolerated(k, DD, B) } : \E sg \in {-1, 1} :
                /\ e' = sg * x
                /\ S' = S + (sg * x)
           /\ UNCHANGED << bit, DD, writes, shift >>
Next == Write \/ Disturb
Spec == Init /\ [][Next]_vars
ReadsBack == writes > 0 /\ Deep(DD, B) => ReadBits(S, DD) = {bit}
Bounded == shift <= MaxShift(DD, B) /\ -shift <= MaxShift(DD, B)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
