--------------------------- MODULE TraceLifecycle ---------------------------
(***************************************************************************)
(* Checks recorded lives of channels.  Features are recorded in thousandth *)
(* of a step (H = 500); "edge" says that some feature lies too close to a  *)
(* border of the half cells to be told apart from rounding.                *)
(*   read: 1 the mark written last reads back with these parameters,       *)
(*         0 it does not, 2 nothing is known                               *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, marks, orig
vars == << l, marks, orig >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
H == 500
Unknown == [pv |-> << >>, q |-> << >>, key |-> "unknown", whole |-> FALSE]
None == << -1 >>
Init == l = 1 /\ marks = << >> /\ orig = << >>
\* images are numbered 1, 2, ... within a history
Put(s, i, v) == IF i <= Len(s) THEN [s EXCEPT ![i] = v] ELSE Append(s, v)

New == /\ l <= Len(Trace) /\ Trace[l].ev = "new"
       /\ LET e == Trace[l]
              clear == e.i = 1
          IN /\ marks' = IF clear THEN << NoMark >> ELSE Put(marks, e.i, NoMark)
             /\ orig' = IF clear THEN << None >> ELSE Put(orig, e.i, None)
       /\ l' = l + 1

\* a channel watermarked by the library
MarkEv == /\ l <= Len(Trace) /\ Trace[l].ev = "mark"
          /\ LET e == Trace[l]
             IN /\ marks' = Put(marks, e.o, IF e.ok = 0 THEN NoMark ELSE IF e.edge = 1 THEN Unknown ELSE MarkOf(e.f, H))
                /\ orig' = Put(orig, e.o, IF e.ok = 0 THEN None ELSE e.f)
                /\ (Prop = "C11" => e.ok = 1)
          /\ l' = l + 1

\* a mark composed by the recorder
Craft == /\ l <= Len(Trace) /\ Trace[l].ev = "craft"
         /\ LET e == Trace[l]
            IN /\ marks' = Put(marks, e.o, [pv |-> e.pv, q |-> e.q, key |-> e.key, whole |-> e.whole = 1])
               /\ orig' = Put(orig, e.o, None)
         /\ l' = l + 1

\* pixels changed, mark kept; or a lossless copy
Copy == /\ l <= Len(Trace) /\ Trace[l].ev = "copy"
        /\ LET e == Trace[l]
           IN marks' = Put(marks, e.o, marks[e.i]) /\ orig' = Put(orig, e.o, orig[e.i])
        /\ l' = l + 1

\* the mark of i moved onto the content of another image
Move == /\ l <= Len(Trace) /\ Trace[l].ev = "move"
        /\ LET e == Trace[l]
           IN marks' = Put(marks, e.o, marks[e.i]) /\ orig' = Put(orig, e.o, orig[e.i])
        /\ l' = l + 1

Auth == /\ l <= Len(Trace) /\ Trace[l].ev = "auth"
        /\ LET e == Trace[l]
               m == marks[e.i]
               yes == e.ok = 1 /\ e.r = 1
           IN /\ Prop = "C11" =>
                   (e.read = 1 /\ orig[e.i] # None /\ Within(e.f, orig[e.i], (2 * H) - 1) /\ e.same = 1 => yes)
              /\ Prop = "C12" =>
                   /\ (e.read = 1 /\ e.edge = 0 /\ m # Unknown => (yes <=> Accept(e.f, m, H)))
                   /\ (e.read = 0 => ~yes)
                   /\ (e.read = 1 /\ e.same = 1 /\ orig[e.i] # None /\ Beyond(e.f, orig[e.i], (3 * H) + 1) => ~yes)
        /\ l' = l + 1 /\ UNCHANGED << marks, orig >>

Next == New \/ MarkEv \/ Craft \/ Copy \/ Move \/ Auth
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
