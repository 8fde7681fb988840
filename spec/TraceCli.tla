------------------------------- MODULE TraceCli -----------------------------
(* Runs of the real tool: the file system before and after, and the exit. *)
EXTENDS Cli, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
FsOf(list) == [ p \in { list[i].p : i \in 1..Len(list) } |-> (CHOOSE i \in 1..Len(list) : list[i].p = p) ]
Entries(list) == LET at == FsOf(list) IN [ p \in DOMAIN at |-> list[at[p]].e ]
Good(e) == Run(Entries(e.before), e.a) = << Entries(e.after), e.exit >>
Next == /\ l <= Len(Trace) /\ Trace[l].ev = "run" /\ (Good(Trace[l])) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
