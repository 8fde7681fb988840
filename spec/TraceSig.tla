------------------------------ MODULE TraceSig -------------------------------
(* Checks recorded signatures and verifications against the ideal scheme. *)
EXTENDS Sig, Integers, Sequences, TLC, Json, IOUtils
CONSTANT Prop
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ issued = {}

DoSign == /\ l <= Len(Trace) /\ Trace[l].ev = "sign"
          /\ Trace[l].ok = 1
          /\ Sign(Trace[l].k, Trace[l].d, Trace[l].s)
          /\ l' = l + 1
\* a signature published for this key and these data (RFC 8032), or made from them without the code under test
Known == /\ l <= Len(Trace) /\ Trace[l].ev = "known"
         /\ Sign(Trace[l].k, Trace[l].d, Trace[l].s)
         /\ l' = l + 1
Verify == /\ l <= Len(Trace) /\ Trace[l].ev = "verify"
          /\ Trace[l].ok = 1
          /\ (Trace[l].r = 1) = Verifies(Trace[l].k, Trace[l].d, Trace[l].s)
          /\ l' = l + 1 /\ UNCHANGED issued
\* one signature with each of its bits altered in turn
Bits == /\ l <= Len(Trace) /\ Trace[l].ev = "bits"
        /\ Verifies(Trace[l].k, Trace[l].d, Trace[l].s)
        /\ Trace[l].refused = 0 /\ Trace[l].accepted = << >> /\ Trace[l].tried > 0
        /\ l' = l + 1 /\ UNCHANGED issued
Next == DoSign \/ Known \/ Verify \/ Bits
Spec == Init /\ [][Next]_<< l, issued >>
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
