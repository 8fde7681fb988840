--------------------------- MODULE TraceThreeBit ----------------------------
(***************************************************************************)
(* Checks recorded quantisations and restorations against ThreeBit.        *)
(* State: the features quantised last, and what the implementation made    *)
(* of them (quantised values and perturbation vector).                     *)
(***************************************************************************)
EXTENDS ThreeBit, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, H, orig, q, pv
vars == << l, H, orig, q, pv >>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Init == l = 1 /\ H = 1 /\ orig = << >> /\ q = << >> /\ pv = << >>

\* C08 fixes the quantised values and the perturbation vector
QuantiseOK(e) ==
    Prop = "C08" => /\ e.ok = 1
                    /\ e.q = [ i \in 1..Len(e.f) |-> Cell(e.f[i], e.H) ]
                    /\ e.b = BitsOf(e.f, e.H)

Quantise == /\ l <= Len(Trace) /\ Trace[l].ev = "quant"
            /\ LET e == Trace[l] IN
               /\ QuantiseOK(e)
               /\ H' = e.H /\ orig' = e.f /\ q' = e.q /\ pv' = e.b
            /\ l' = l + 1

Within(i, g) == Abs(g[i] - orig[i]) <= 2*H
Beyond(i, g) == Abs(g[i] - orig[i]) >= 3*H

RestoreOK(e) ==
    LET n == Len(orig) IN
    IF e.ok = 0
    THEN Prop = "C08" => \E i \in 1..n : ~Within(i, e.g)
    ELSE /\ Len(e.o) = n
         /\ \A i \in 1..n :
              CASE Within(i, e.g) -> Prop = "C08" => e.o[i] = q[i]
                [] Beyond(i, e.g) -> Prop = "C09" => e.o[i] # q[i]
                [] OTHER -> Prop = "C09" =>
                     ((e.o[i] = q[i]) <=> (Restore(e.g[i], Bits(orig[i], H), H) = Cell(orig[i], H)))

DoRestore == /\ l <= Len(Trace) /\ Trace[l].ev = "restore"
             /\ RestoreOK(Trace[l])
             /\ l' = l + 1
             /\ UNCHANGED << H, orig, q, pv >>

Next == Quantise \/ DoRestore
Spec == Init /\ [][Next]_vars

Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
