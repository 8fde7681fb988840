------------------------------- MODULE MCCrash ------------------------------
(***************************************************************************)
(* The tool as a machine of single steps: prepare the folder one part at a *)
(* time, then for every input read, open, write in Parts parts, report.    *)
(* Kill and Fault may strike in every state.  Plans are the same runs with *)
(* one fault each.                                                         *)
(***************************************************************************)
EXTENDS MCCli, Crash
CONSTANTS Parts, Kinds, Places, Steps
VARIABLES made, part, reported, end, plan
cvars == << fs, a, n, status, made, part, reported, end, plan >>
Partial(k) == [k |-> "bytes", pic |-> "part " \o ToString(k), f |-> "", big |-> FALSE]
Begin == /\ fs = Layout /\ a \in Arguments /\ n = 1 /\ made = 0 /\ part = "none" /\ reported = 0 /\ end = "running" /\ status = "new"
CInit == Begin /\ plan = [k |-> "", at |-> "", j |-> 0, w |-> ""]
Here == a.inputs[n]
Out == OutName(OutDir(a), a.suffix, Here)
Going == end = "running"
CStart == /\ Going /\ status = "new"
          /\ CASE Begins(fs, a) = "go" -> status' = "making" /\ UNCHANGED end
               [] Begins(fs, a) \in {"usage", "nosuffix"} -> status' = "over" /\ end' = "ok"
               [] OTHER -> status' = "over" /\ end' = "fail"
          /\ UNCHANGED << fs, a, n, made, part, reported >>
CMake == /\ Going /\ status = "making"
         /\ IF a.hasout /\ made < Len(a.chain)
            THEN fs' = MakeDirs(fs, << a.chain[made + 1] >>) /\ made' = made + 1 /\ UNCHANGED status
            ELSE status' = "reading" /\ UNCHANGED << fs, made >>
         /\ UNCHANGED << a, n, part, reported, end >>
CRead == /\ Going /\ status = "reading"
         /\ IF n > Len(a.inputs) THEN end' = "ok" /\ status' = "over"
            ELSE IF Processable(fs, Here) THEN status' = "marked" /\ UNCHANGED end ELSE end' = "fail" /\ status' = "over"
         /\ part' = IF n <= Len(a.inputs) /\ Here.path \in DOMAIN fs THEN fs[Here.path].pic ELSE "none"
         /\ UNCHANGED << fs, a, n, made, reported >>
COpen == /\ Going /\ status = "marked"
         /\ IF Blocked(fs, a, Here) THEN end' = "fail" /\ status' = "over" /\ UNCHANGED fs
            ELSE status' = "p0" /\ fs' = Put(fs, Out, Partial(0)) /\ UNCHANGED end
         /\ UNCHANGED << a, n, made, part, reported >>
CWrite == \E k \in 0..(Parts - 1) :
          /\ Going /\ status = "p" \o ToString(k)
          /\ fs' = Put(fs, Out, IF k + 1 < Parts THEN Partial(k + 1)
                                ELSE [k |-> "image", pic |-> Marked(part, Formats[Here.ext]), f |-> Formats[Here.ext], big |-> TRUE])
          /\ status' = IF k + 1 < Parts THEN "p" \o ToString(k + 1) ELSE "written"
          /\ UNCHANGED << a, n, made, part, reported, end >>
CReport == /\ Going /\ status = "written"
           /\ reported' = reported + 1 /\ n' = n + 1 /\ status' = "reading" /\ part' = "none"
           /\ UNCHANGED << fs, a, made, end >>
CKill == Going /\ end' = "killed" /\ UNCHANGED << fs, a, n, status, made, part, reported >>
CFault == /\ Going /\ status \in {"reading", "marked"} \cup { "p" \o ToString(k) : k \in 0..(Parts - 1) } /\ n <= Len(a.inputs)
          /\ end' = "fail" /\ UNCHANGED << fs, a, n, status, made, part, reported >>
CNext == (CStart \/ CMake \/ CRead \/ COpen \/ CWrite \/ CReport \/ CKill \/ CFault) /\ UNCHANGED plan
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars((CStart \/ CMake \/ CRead \/ COpen \/ CWrite \/ CReport) /\ UNCHANGED plan)
\* ---- what a user relies on
ReportedComplete == reported > 0 =>
  \A m \in 1..reported : LET p == Names(a)[m] IN
     p \in Doubtful(a, reported) \/ (fs[p] = At(Layout, a, reported)[p] /\ fs[p].k = "image")
InOrder == reported = n - 1 /\ reported <= Len(a.inputs)
OneInDoubt == \A p \in DOMAIN Layout : p \notin { Names(a)[m] : m \in 1..(IF n > Len(a.inputs) THEN n - 1 ELSE n) } => fs[p] = Layout[p]
Accepted == end # "running" => Left(Layout, fs, a, reported, end)
Refines == end = "ok" => << fs, "ok" >> = Run(Layout, a)
Ends == <>(end # "running")
NeverTakenBack == [][reported' >= reported]_cvars
\* ---- plans
Faults == { [k |-> k, at |-> at, j |-> j, w |-> w] : k \in Kinds \ {"short", "interrupted", "none", "clock"}, at \in {"open", "write", "report", "read"}, j \in 1..Longest, w \in Places }
Sensible(f) == CASE f.k = "kill" -> f.at # "read" /\ (f.at # "write" => f.w = "first")
                 [] f.k = "nospace" -> f.at = "write"
                 [] f.k = "denied" -> f.at = "open" /\ f.w = "first"
                 [] f.k = "badread" -> f.at = "read"
                 [] OTHER -> FALSE
Plans == { f \in Faults : Sensible(f) }
     \cup { [k |-> k, at |-> "", j |-> 0, w |-> ""] : k \in Kinds \cap {"short", "interrupted", "none"} }
     \cup { [k |-> "clock", at |-> "", j |-> d[1], w |-> ToString(d[2])] : d \in Steps }
PInit == Begin /\ a.inputs # << >> /\ plan \in Plans /\ (plan.k = "clock" \/ plan.j <= Len(a.inputs))
PSpec == PInit /\ [][FALSE]_cvars
PDump == CSVWrite("%1$s", << ToJson([a |-> a, fault |-> plan, fs |-> { [p |-> p, e |-> Layout[p]] : p \in DOMAIN Layout }]) >>, IOEnv.OUT)
\* durations a report can show
DurationsSmall == { << 0, 0 >>, << 0, 7 >>, << 0, 999 >>, << 0, 1000 >>, << 0, 999999 >>, << 0, 1000000 >>, << 0, 999999999 >>,
                    << 1, 0 >>, << 1, 50000000 >>, << 9, 9999999 >>, << 9, 999999999 >>, << 10, 0 >>, << 10, 999999999 >>, << 59, 999000000 >>, << 3600, 5 >> }
NoSteps == {}
=============================================================================
