----------------------------- MODULE TraceRecord -----------------------------
(* Checks recorded serialisations against Record.  State: the record written last. *)
EXTENDS Record, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, rec
vars == << l, rec >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ rec = << >>

Ser == /\ l <= Len(Trace) /\ Trace[l].ev = "ser"
       /\ LET e == Trace[l] IN
          /\ IF Fits(e.p, e.s, e.t) THEN e.ok = 1 /\ e.b = Record(e.p, e.s, e.t) ELSE e.ok = 0
          /\ rec' = e.b
       /\ l' = l + 1
\* e.b: the bytes given to the reader (a record and anything behind it)
De == /\ l <= Len(Trace) /\ Trace[l].ev = "de"
      /\ LET e == Trace[l] IN
         WholeRecord(e.b) => e.ok = 1 /\ e.p = PartP(e.b) /\ e.s = PartS(e.b) /\ e.t = PartT(e.b)
      /\ l' = l + 1 /\ UNCHANGED rec
PackEv == /\ l <= Len(Trace) /\ Trace[l].ev = "pack"
          /\ LET e == Trace[l] IN e.ok = 1 /\ e.b = Pack(e.p) /\ e.back = e.p
          /\ l' = l + 1 /\ UNCHANGED rec
Next == Ser \/ De \/ PackEv
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
