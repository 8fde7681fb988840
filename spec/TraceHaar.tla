------------------------------ MODULE TraceHaar ------------------------------
(* Checks recorded transforms against Haar.  State: the matrix transformed last. *)
EXTENDS Haar, Json, IOUtils
CONSTANT Prop
VARIABLES l, x, L
vars == << l, x, L >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ x = << >> /\ L = 0

\* e.y is 2^L times the coefficients in units of the matrix
Forward == /\ l <= Len(Trace) /\ Trace[l].ev = "fwd"
           /\ LET e == Trace[l] IN
              /\ IF Divisible(e.R, e.C, e.L) THEN e.ok = 1 /\ e.whole = 1 /\ e.y = Pyramid(e.x, e.L) ELSE e.ok = 0
              /\ x' = e.x /\ L' = e.L
           /\ l' = l + 1
\* the inverse of the coefficients the specification gives for x
Backward == /\ l <= Len(Trace) /\ Trace[l].ev = "bwd"
            /\ Trace[l].ok = 1 /\ Trace[l].whole = 1
            /\ Trace[l].y = x
            /\ l' = l + 1 /\ UNCHANGED << x, L >>
Next == Forward \/ Backward
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
