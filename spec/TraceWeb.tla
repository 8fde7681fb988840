------------------------------ MODULE TraceWeb ------------------------------
(***************************************************************************)
(* Checks recorded use of the browser crate: "start" resets the store,     *)
(* every "op" is followed by the whole store read through getters, "open"  *)
(* is a call of the entry point.                                           *)
(***************************************************************************)
EXTENDS Web, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ st = << >>
Start == l <= Len(Trace) /\ Trace[l].ev = "start" /\ st' = Trace[l].st /\ l' = l + 1
Op == /\ l <= Len(Trace) /\ Trace[l].ev = "op"
      /\ \E n \in {TLCEval(Effect(st, Trace[l].o))} : Trace[l].st = n /\ st' = n
      /\ l' = l + 1
\* px: positions with the picture's pixel and the four bytes found at that place of the data
Pixels(w, px) == \A i \in 1..Len(px) : px[i].at = At(w, px[i].x, px[i].y, 0) - 1 /\ px[i].found = px[i].pixel
Shown(e, g) == g.w = e.w /\ g.h = e.h /\ g.len = 4 * e.w * e.h /\ (Pixels(e.w, g.px)) = TRUE
Open == /\ l <= Len(Trace) /\ Trace[l].ev = "open"
        /\ LET e == Trace[l]
           IN /\ e.got = "process"
              /\ e.f \in DOMAIN FormatNames /\ e.format = FormatNames[e.f]
              /\ Shown(e, e.source) /\ Shown(e, e.marked)
              /\ e.source.all = e.picture /\ e.marked.all = e.expected
              /\ e.changed
        /\ l' = l + 1 /\ UNCHANGED st
Next == Start \/ Op \/ Open
Spec == Init /\ [][Next]_<< l, st >>
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
