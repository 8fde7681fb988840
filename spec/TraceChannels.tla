---------------------------- MODULE TraceChannels ---------------------------
(***************************************************************************)
(* Checks recorded watermarkings of whole images against Channels; planes  *)
(* are named by a digest of their size and pixels.                         *)
(***************************************************************************)
EXTENDS Channels, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, known
vars == << l, known >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ known = << >>
\* a plane watermarked on its own ("refused" where it was refused)
Plane == /\ l <= Len(Trace) /\ Trace[l].ev = "plane"
         /\ LET e == Trace[l]
                k == << e.d, e.par >>
            IN known' = [ x \in DOMAIN known \cup {k} |-> IF x = k THEN e.o ELSE known[x] ]
         /\ l' = l + 1
Image == /\ l <= Len(Trace) /\ Trace[l].ev = "image"
         /\ LET e == Trace[l]
                W(p) == known[<< p, e.par >>]
                n == Marked(e.type)
                may == \A i \in 1..n : W(e.in[i]) # "refused"
            IN /\ Len(e.in) = Planes(e.type)
               /\ (e.ok = 1) = may
               /\ e.ok = 1 =>
                    /\ e.out_type = OutType(e.type)
                    /\ e.w = e.out_w /\ e.h = e.out_h
                    /\ e.out = OutPlanes(e.type, e.in, W)
         /\ l' = l + 1 /\ UNCHANGED known
Next == Plane \/ Image
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
