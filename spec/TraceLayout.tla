----------------------------- MODULE TraceLayout ----------------------------
(***************************************************************************)
(* Checks recorded calls: "plain" holds the results of each operation on a  *)
(* matrix that lies row by row; each "call" is the same operation on the    *)
(* same matrix, lying differently.  The way it lies is that of the model,   *)
(* and the result is the same.                                              *)
(***************************************************************************)
EXTENDS Layout, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, result
vars == << l, result >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ result = << >>
\* numbers are equal up to rounding, everything else exactly
Same(a, b) == IF a.kind = "numbers"
              THEN b.kind = "numbers" /\ Len(a.v) = Len(b.v) /\ \A i \in DOMAIN a.v : a.v[i] - b.v[i] \in -1..1
              ELSE a = b
PlainEv == /\ l <= Len(Trace) /\ Trace[l].ev = "plain"
           /\ result' = Trace[l].r
           /\ l' = l + 1
CallEv == /\ l <= Len(Trace) /\ Trace[l].ev = "call"
          /\ LET e == Trace[l]
                 v == View(e.steps, e.R, e.C)
             IN /\ v.rows = e.R /\ v.cols = e.C
                /\ e.strides = << v.rs, v.cs >>
                /\ Same(result[e.op], e.r)
          /\ l' = l + 1 /\ UNCHANGED result
Next == PlainEv \/ CallEv
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
