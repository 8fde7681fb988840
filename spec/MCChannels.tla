----------------------------- MODULE MCChannels -----------------------------
(***************************************************************************)
(* The planes are taken apart, marked one after the other in any order and *)
(* put together again; the result is the one Channels prescribes whatever  *)
(* the order.  Every assignment of pool planes to channels is written out. *)
(***************************************************************************)
EXTENDS Channels, TLC, Json, IOUtils, CSV
CONSTANTS Pool, Alphas, Shapes
VARIABLES type, shape, in, out, done
vars == << type, shape, in, out, done >>
W(p) == << "marked", p >>
Inputs(t) == { s \in [1..Planes(t) -> Pool \cup Alphas] :
                 \A i \in 1..Planes(t) : IF i <= Marked(t) THEN s[i] \in Pool ELSE s[i] \in Alphas }
Init == /\ type \in Types /\ shape \in Shapes /\ in \in Inputs(type)
        /\ out = [i \in 1..Planes(type) |-> << "none", 0 >>] /\ done = {}
Step == \E i \in (1..Planes(type)) \ done :
          /\ out' = [out EXCEPT ![i] = IF i <= Marked(type) THEN W(in[i]) ELSE << "kept", in[i] >>]
          /\ done' = done \cup {i} /\ UNCHANGED << type, shape, in >>
Next == Step
Spec == Init /\ [][Next]_vars
Finished == done = 1..Planes(type)
Result == Finished =>
            LET want == OutPlanes(type, in, W)
            IN \A i \in 1..Planes(type) : IF i <= Marked(type) THEN out[i] = want[i] ELSE out[i][2] = in[i] /\ want[i] = in[i]
KeepsKind == HasColor(OutType(type)) = HasColor(type) /\ HasAlpha(OutType(type)) = HasAlpha(type)
\* what is nearest is unambiguous for 16 bits: 257 samples come to each of the 256 values, about its multiple of 257
Nearest == \A v \in 0..255 : \A d \in -128..128 :
             LET x == 257 * v + d IN x \in 0..65535 => Narrow(x, 65535) = v
ASSUME Nearest
Dump == Finished => CSVWrite("%1$s", << ToJson([type |-> type, shape |-> shape, planes |-> in]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
