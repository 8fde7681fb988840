-------------------------------- MODULE Page --------------------------------
(***************************************************************************)
(* The page (C23).  It waits for the library and for the built-in picture; *)
(* then pictures are chosen one after the other, and the reading of a      *)
(* chosen file may end at any time, well or badly.                         *)
(*   lib, first: "waiting", "ok", "failed"                                 *)
(*   chosen: sequence of [file, junk, st]   st: "reading", "read", "lost"  *)
(*   shown: -1 nothing yet, 0 the built-in picture, i the i-th chosen      *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES lib, first, chosen, shown
pvars == << lib, first, chosen, shown >>
PInit == lib = "waiting" /\ first = "waiting" /\ chosen = << >> /\ shown = -1

Both(a, b) == IF a = "ok" /\ b = "ok" THEN 0 ELSE -1
Outcome(ok) == IF ok = 1 THEN "ok" ELSE "failed"
LibDone(ok) == lib = "waiting" /\ lib' = Outcome(ok) /\ shown' = Both(lib', first) /\ UNCHANGED << first, chosen >>
FirstDone(ok) == first = "waiting" /\ first' = Outcome(ok) /\ shown' = Both(lib, first') /\ UNCHANGED << lib, chosen >>
Choose(f, junk) == /\ shown >= 0
                   /\ chosen' = Append(chosen, [file |-> f, junk |-> junk, st |-> "reading"])
                   /\ UNCHANGED << lib, first, shown >>
\* the dialog was closed without a choice
Cancel == shown >= 0 /\ UNCHANGED pvars

\* what may be shown once the reading of i has ended: the picture chosen last always, an earlier one never instead of a later one
After(i, ok) ==
  IF ok = 0 \/ chosen[i].junk = 1 THEN {shown}
  ELSE IF i = Len(chosen) THEN {i}
  ELSE {shown} \cup (IF i > shown THEN {i} ELSE {})
Finish(i, ok, now) ==
  /\ i \in DOMAIN chosen /\ chosen[i].st = "reading"
  /\ now \in After(i, ok)
  /\ shown' = now
  /\ chosen' = [chosen EXCEPT ![i].st = IF ok = 1 THEN "read" ELSE "lost"]
  /\ UNCHANGED << lib, first >>

\* ---- the library's stand-in: what a file [f, w, h, seed, len, sum] holds, and what marking makes of it
Names == << "PNG", "JPEG", "GIF", "TIFF", "BMP" >>
Source(f) == [ k \in 1..(4 * f.w * f.h) |-> ((f.seed * 31) + ((k - 1) * 7) + (f.sum * 3) + f.len) % 256 ]
Depth == 500 * 16
Step == 16
Marked(f) == [ k \in 1..(4 * f.w * f.h) |-> (Source(f)[k] + (Depth * 3) + (Step * 5) + (k - 1)) % 256 ]
=============================================================================
