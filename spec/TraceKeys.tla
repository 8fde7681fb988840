------------------------------ MODULE TraceKeys ------------------------------
(* Checks recorded key generation, signatures and verifications (C21). *)
EXTENDS Keys, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ issued = {} /\ pairs = {}

\* ac, bc: the two texts character by character; own: the public key that belongs to the private one
Pair == /\ l <= Len(Trace) /\ Trace[l].ev = "pair"
        /\ Trace[l].ok = 1
        /\ IsKeyText(Trace[l].ac) /\ IsKeyText(Trace[l].bc)
        /\ Trace[l].b = Trace[l].own
        /\ Generate(Trace[l].a, Trace[l].b)
        /\ l' = l + 1 /\ UNCHANGED issued
\* a history begins with the pair in use elsewhere
Builtin == /\ l <= Len(Trace) /\ Trace[l].ev = "builtin"
           /\ pairs' = { << Trace[l].a, Trace[l].b >> } /\ issued' = {}
           /\ l' = l + 1
DoSign == /\ l <= Len(Trace) /\ Trace[l].ev = "sign"
          /\ Trace[l].ok = 1
          /\ Sign(Trace[l].k, Trace[l].d, Trace[l].s)
          /\ l' = l + 1 /\ UNCHANGED pairs
Verify == /\ l <= Len(Trace) /\ Trace[l].ev = "verify"
          /\ Trace[l].ok = 1
          /\ (Trace[l].r = 1) = Verifies(Trace[l].k, Trace[l].d, Trace[l].s)
          /\ l' = l + 1 /\ UNCHANGED << issued, pairs >>
\* many private keys, byte by byte: every bit takes both values, and no byte is like another one throughout
Spread == /\ l <= Len(Trace) /\ Trace[l].ev = "spread"
          /\ Len(Trace[l].keys) >= 100
          /\ \A i \in 1..32 : \A bit \in 0..7 :
               { (k[i] \div (2 ^ bit)) % 2 : k \in { Trace[l].keys[n] : n \in DOMAIN Trace[l].keys } } = {0, 1}
          /\ (\A i \in 1..32, j \in 1..32 : i # j => \E n \in DOMAIN Trace[l].keys : Trace[l].keys[n][i] # Trace[l].keys[n][j]) = TRUE
          /\ l' = l + 1 /\ UNCHANGED << issued, pairs >>
Next == Pair \/ Builtin \/ DoSign \/ Verify \/ Spread
Spec == Init /\ [][Next]_<< l, issued, pairs >>
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
