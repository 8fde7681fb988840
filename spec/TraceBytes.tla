----------------------------- MODULE TraceBytes ------------------------------
(* Checks recorded conversions against Bytes. *)
EXTENDS Bytes, TLC, Json, IOUtils
CONSTANT Prop
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1

OK(e) ==
  CASE e.ev = "to" -> e.ok = 1 /\ e.b = ToBytes(e.ints, e.w)
    [] e.ev = "from" -> IF Whole(e.b, e.w) THEN e.ok = 1 /\ e.ints = FromBytes(e.b, e.w) ELSE e.ok = 0
    [] e.ev = "hex" -> e.ok = 1 /\ e.t = ToHex(e.b)
    [] e.ev = "unhex" -> IF IsHex(e.t) THEN e.ok = 1 /\ e.b = FromHex(e.t) ELSE e.ok = 0
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ OK(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
