------------------------------- MODULE MCPage -------------------------------
(* Histories of the page: every order of choices and ends of reading, for the kinds of files in Kinds. *)
EXTENDS Page, TLC, Json, IOUtils, CSV
CONSTANTS Kinds, Choices, Limit
VARIABLES h
vars == << pvars, h >>
\* a file of a kind as the n-th choice
FileOf(kind, n) ==
  LET base == [name |-> "a.png", type |-> "image/png", f |-> 0, w |-> 2, h |-> 2, seed |-> (11 * n) + 3, len |-> 40 + n, junk |-> 0]
  IN CASE kind = "png" -> base
       [] kind = "jpeg" -> [base EXCEPT !.name = "b.JPG", !.type = "image/jpeg", !.f = 1, !.w = 3, !.h = 1, !.len = 5 + n]
       [] kind = "tiff" -> [base EXCEPT !.name = "c d.tif", !.type = "image/tiff", !.f = 3, !.w = 1, !.h = 3]
       [] kind = "bmp" -> [base EXCEPT !.name = "e.bmp", !.type = "image/x-ms-bmp", !.f = 4]
       [] kind = "untyped" -> [base EXCEPT !.name = "f", !.type = "", !.f = 2, !.len = 300]
       [] kind = "svgtype" -> [base EXCEPT !.name = "g.svg", !.type = "image/svg+xml", !.w = 3]
       [] kind = "other" -> [base EXCEPT !.name = "h.bin", !.type = "application/vnd.ms-office.x_1", !.h = 3, !.len = 257]
       [] kind = "params" -> [base EXCEPT !.type = "image/png;version=1.2", !.len = 64]
       [] kind = "large" -> [base EXCEPT !.name = "i.gif", !.type = "image/gif", !.f = 2, !.w = 5, !.h = 4, !.len = 200000]
       [] kind = "wide" -> [base EXCEPT !.w = 60, !.h = 17, !.len = 70001]
       [] kind = "junk" -> [base EXCEPT !.name = "j.png", !.junk = 1]
       [] kind = "twin" -> [base EXCEPT !.seed = 3, !.len = 40]
Init == PInit /\ h = << >>
Log(op) == Len(h) < Limit /\ h' = Append(h, op)
Next == \/ \E ok \in {0, 1} : LibDone(ok) /\ Log([op |-> "init", ok |-> ok])
        \/ \E ok \in {0, 1} : FirstDone(ok) /\ Log([op |-> "first", ok |-> ok])
        \/ \E k \in Kinds : /\ Len(chosen) < Choices
                            /\ \E f \in { FileOf(k, Len(chosen) + 1) } : Choose(f, f.junk) /\ Log([op |-> "choose", file |-> f])
        \/ Cancel /\ Log([op |-> "cancel"])
        \/ \E i \in DOMAIN chosen, ok \in {0, 1} : \E now \in After(i, ok) : Finish(i, ok, now) /\ Log([op |-> "finish", i |-> i, ok |-> ok])
Spec == Init /\ [][Next]_vars
\* ---- the property
Good(i) == chosen[i].st = "read" /\ chosen[i].junk = 0
LastWins == chosen # << >> /\ Good(Len(chosen)) => shown = Len(chosen)
OnlyWhole == shown > 0 => Good(shown)
NeverBack == [][shown' >= shown]_shown
Waits == shown = -1 <=> ~(lib = "ok" /\ first = "ok")
\* ---- histories to replay: those of full length (and the short ones that cannot go on)
Dump == \/ Len(h) < Limit
        \/ CSVWrite("%1$s", << ToJson([ops |-> h, builtin |-> FileOf("jpeg", 9)]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
