----------------------------- MODULE TraceHistory ---------------------------
(***************************************************************************)
(* Checks recorded calls: each was first made alone in a process of its    *)
(* own, which fixes its result.  A session is a new process with its       *)
(* threads; in it every call must end with the result it has alone.        *)
(***************************************************************************)
EXTENDS History, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, result, pending
vars == << l, result, pending >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ result = << >> /\ pending = << >>
\* results of the calls 1, 2, ... each made alone
Alone == /\ l <= Len(Trace) /\ Trace[l].ev = "alone"
         /\ result' = Trace[l].r
         /\ pending' = [ t \in 1..Trace[l].threads |-> 0 ]
         /\ l' = l + 1
\* a session ends when all its calls have ended
Session == /\ l <= Len(Trace) /\ Trace[l].ev = "session"
           /\ \A t \in DOMAIN pending : pending[t] = 0
           /\ l' = l + 1 /\ UNCHANGED << result, pending >>
BeginEv == /\ l <= Len(Trace) /\ Trace[l].ev = "begin"
           /\ LET e == Trace[l]
              IN CanBegin(pending, e.t) /\ pending' = Begin(pending, e.t, e.c)
           /\ l' = l + 1 /\ UNCHANGED result
EndEv == /\ l <= Len(Trace) /\ Trace[l].ev = "end"
         /\ LET e == Trace[l]
            IN /\ CanEnd(pending, e.t, e.c)
               /\ e.r = result[e.c]
               /\ pending' = Ended(pending, e.t)
         /\ l' = l + 1 /\ UNCHANGED result
Next == Alone \/ Session \/ BeginEv \/ EndEv
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
