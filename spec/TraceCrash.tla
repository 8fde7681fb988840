------------------------------ MODULE TraceCrash ----------------------------
(* Runs of the real tool with faults: the file system before and after, the *)
(* reports on standard output and how the run ended.                        *)
EXTENDS Crash, Json, IOUtils
CONSTANT Prop
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
FsOf(list) == [ p \in { list[i].p : i \in 1..Len(list) } |-> (CHOOSE i \in 1..Len(list) : list[i].p = p) ]
Entries(list) == LET at == FsOf(list) IN [ p \in DOMAIN at |-> list[at[p]].e ]
\* every file holds all the bytes it is known to hold
Whole(e, names) == \A i \in 1..Len(e.after) : e.after[i].p \in names => e.after[i].whole
Killed(f) == f.k = "kill"
Failing(f) == f.k \in {"nospace", "denied", "badread", "interrupted"}
GoodReports(e) ==
  /\ Len(e.reports) <= Len(e.a.inputs)
  /\ \A m \in 1..Len(e.reports) : LET r == e.reports[m] IN
     /\ r.path = Names(e.a)[m]
     /\ LET pic == At(Entries(e.before), e.a, m - 1)[e.a.inputs[m].path].pic IN
        pic \in DOMAIN ChannelsOf => r.from = ChannelsOf[pic]
     /\ r.to = r.from /\ r.from \in 1..4
     /\ e.fault.k = "clock" => \E k \in 1..6 : LET d == Times(e.step, k) IN r.time = Shown(d[1], d[2])
Good(e) ==
  LET m == Len(e.reports) before == Entries(e.before) after == Entries(e.after) IN
  /\ (GoodReports(e)) = TRUE
  /\ (Left(before, after, e.a, m, e.end)) = TRUE
  /\ Whole(e, { Names(e.a)[k] : k \in 1..m } \ (IF e.end = "ok" THEN {} ELSE Doubtful(e.a, m)))
  /\ CASE Killed(e.fault) /\ e.fired -> e.end = "killed"
       [] Failing(e.fault) /\ e.fired -> e.end \in {"ok", "fail"}
       [] OTHER -> (<< after, e.end >> = Run(before, e.a)) = TRUE
  \* a report that a run reaches is seen
  /\ (Killed(e.fault) /\ e.fault.at = "report" /\ e.fault.j <= Reachable(before, e.a)) => (e.fired /\ m = e.fault.j)
Next == /\ l <= Len(Trace) /\ Trace[l].ev = "run" /\ (Good(Trace[l])) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
