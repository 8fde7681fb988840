-------------------------------- MODULE Crash -------------------------------
(***************************************************************************)
(* The command line tool where things go wrong (C26).  A run opens,        *)
(* writes and reports one output after the other; it may be killed at any  *)
(* point, and any open, write or read of a file may fail.  What it has     *)
(* reported is complete; of the rest only the output being processed may   *)
(* be in doubt.                                                            *)
(***************************************************************************)
EXTENDS Cli, TLC
RECURSIVE At(_, _, _)
\* the file system when the first m outputs are there
At(fs, a, m) == IF m = 0 THEN Prepared(fs, a) ELSE Step(At(fs, a, m - 1), a, a.inputs[m])
\* how many outputs a run without faults gets to
RECURSIVE Reach(_, _, _)
Reach(fs, a, m) == IF m > Len(a.inputs) THEN m - 1
                   ELSE IF ~Processable(fs, a.inputs[m]) \/ Blocked(fs, a, a.inputs[m]) THEN m - 1
                   ELSE Reach(Step(fs, a, a.inputs[m]), a, m + 1)
Reachable(fs, a) == IF Begins(fs, a) # "go" THEN 0 ELSE Reach(Prepared(fs, a), a, 1)
Names(a) == [ m \in 1..Len(a.inputs) |-> OutName(OutDir(a), a.suffix, a.inputs[m]) ]
\* channels of the pictures, as read from their files
ChannelsOf == [ x \in {"a", "b", "c", "d", "e", "g", "h", "j", "p", "q", "s", "z"} |->
                CASE x \in {"b", "c", "s"} -> 3 [] x \in {"g", "q"} -> 4 [] OTHER -> 1 ]
\* nothing but output m + 1 may differ from At(m): path p is fine
Settled(before, after, a, m, p) ==
  LET want == At(before, a, m) IN
  IF p \in DOMAIN want THEN p \in DOMAIN after /\ after[p] = want[p] ELSE p \notin DOMAIN after
Doubtful(a, m) == IF m < Len(a.inputs) THEN { OutName(OutDir(a), a.suffix, a.inputs[m + 1]) } ELSE {}
Begun(before, after, a) == \* the output folder may be made in part before anything is reported
  \A p \in DOMAIN Prepared(before, a) : p \in DOMAIN before \/ p \notin DOMAIN after \/ after[p] = Dir
\* what is left when a run ended as `end` with m outputs reported
Left(before, after, a, m, end) ==
  IF end = "ok" THEN << after, "ok" >> = Run(before, a) /\ m = Reachable(before, a)
  ELSE IF Begins(before, a) # "go" THEN m = 0 /\ after = before
  ELSE /\ m <= Reachable(before, a)
       /\ IF m = 0 THEN /\ \A p \in DOMAIN before : p \in Doubtful(a, 0) \/ (p \in DOMAIN after /\ after[p] = before[p])
                        /\ Begun(before, after, a)
          ELSE \A p \in DOMAIN At(before, a, m) : p \in Doubtful(a, m) \/ Settled(before, after, a, m, p)
       \* outputs of later inputs are not there yet, unless they were before
       /\ \A k \in (m + 2)..Len(a.inputs) : LET p == Names(a)[k] IN p \in Doubtful(a, m) \/ p \in DOMAIN At(before, a, m) \/ p \notin DOMAIN after
\* ---- the time a report shows, from whole seconds and nanoseconds
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
Shown(s, n) == IF s = 0 THEN IF n < 1000 THEN ToString(n) \o " ns"
                             ELSE IF n < 1000000 THEN ToString(n \div 1000) \o " ^s"
                             ELSE ToString(n \div 1000000) \o " ms"
               ELSE IF s < 10 THEN ToString(s) \o "." \o Two(n \div 10000000) \o " s" ELSE ToString(s) \o " s"
RECURSIVE Times(_, _)
\* k times the duration <<s, n>>
Times(d, k) == IF k = 0 THEN << 0, 0 >>
               ELSE LET r == Times(d, k - 1) n == r[2] + d[2] IN << r[1] + d[1] + (n \div 1000000000), n % 1000000000 >>
=============================================================================
