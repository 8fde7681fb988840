------------------------------ MODULE TracePage -----------------------------
(***************************************************************************)
(* Checks recorded histories of the page: after every event the page has   *)
(* to show what the specification says, the canvases pixel by pixel.       *)
(***************************************************************************)
EXTENDS Page, TLC, Json, IOUtils, Functions
CONSTANT Prop
VARIABLES l, builtin
vars == << pvars, l, builtin >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ PInit /\ builtin = << >>

SizeWord(f) == ToString(f.w) \o "x" \o ToString(f.h)
ShowsPicture(p, f) ==
  /\ p.input = 1
  /\ Len(p.canvases) = 2
  /\ \A i \in 1..2 : p.canvases[i].w = f.w /\ p.canvases[i].h = f.h
  /\ p.canvases[1].d = Source(f) /\ p.canvases[2].d = Marked(f)
  /\ SizeWord(f) \in Range(p.words)
  /\ \A n \in DOMAIN Names : (Names[n] \in Range(p.words)) = (n = f.f + 1)
ShowsNothing(p) == p.canvases = << >> /\ \A n \in DOMAIN Names : Names[n] \notin Range(p.words)
Shows(p, k) == (IF k = -1 THEN ShowsNothing(p) ELSE IF k = 0 THEN ShowsPicture(p, builtin') ELSE ShowsPicture(p, chosen'[k].file)) = TRUE

At(ev) == l <= Len(Trace) /\ Trace[l].ev = ev /\ l' = l + 1
Start == /\ At("start") /\ lib' = "waiting" /\ first' = "waiting" /\ chosen' = << >> /\ shown' = -1
         /\ builtin' = Trace[l].builtin /\ ShowsNothing(Trace[l].page) = TRUE
InitEv == At("init") /\ LibDone(Trace[l].ok) /\ UNCHANGED builtin /\ Shows(Trace[l].page, shown')
FirstEv == At("first") /\ FirstDone(Trace[l].ok) /\ UNCHANGED builtin /\ Shows(Trace[l].page, shown')
ChooseEv == At("choose") /\ Trace[l].input = 1 /\ Choose(Trace[l].file, Trace[l].junk) /\ UNCHANGED builtin /\ Shows(Trace[l].page, shown')
CancelEv == At("cancel") /\ Trace[l].input = 1 /\ Cancel /\ UNCHANGED builtin /\ Shows(Trace[l].page, shown')
FinishEv == /\ At("finish")
            /\ \E now \in After(Trace[l].i, Trace[l].ok) :
                 Finish(Trace[l].i, Trace[l].ok, now) /\ UNCHANGED builtin /\ Shows(Trace[l].page, now)
Next == Start \/ InitEv \/ FirstEv \/ ChooseEv \/ CancelEv \/ FinishEv
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
