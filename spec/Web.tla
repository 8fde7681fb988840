-------------------------------- MODULE Web ---------------------------------
(***************************************************************************)
(* What the browser page sees (C19): models [w, h, d] and processes        *)
(* [f, s, m] holding a format and two models, all values; and the process  *)
(* the entry point returns for a blob.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
FormatNames == [gif |-> "Gif", jpeg |-> "Jpeg", png |-> "Png", tiff |-> "Tiff", bmp |-> "Bmp"]
\* pixel x, y of an RGBA picture of width w in row-major bytes, from 1
At(w, x, y, c) == (4 * ((y * w) + x)) + c + 1
\* ---- models and processes: op is a record, st maps names to values
Bind(st, n, v) == [ k \in DOMAIN st \cup {n} |-> IF k = n THEN v ELSE st[k] ]
Result(st, op) ==
    CASE op.op = "model" -> [w |-> op.w, h |-> op.h, d |-> op.d]
      [] op.op = "process" -> [f |-> op.f, s |-> st[op.a], m |-> st[op.b]]
      [] op.op = "getSource" -> st[op.n].s
      [] op.op = "getMarked" -> st[op.n].m
      [] OTHER -> << >>
Target(op) == IF op.op \in {"getSource", "getMarked"} THEN op.to ELSE op.n
Effect(st, op) ==
    CASE op.op \in {"model", "process", "getSource", "getMarked"} -> Bind(st, Target(op), Result(st, op))
      [] op.op = "setWidth" -> [st EXCEPT ![op.n].w = op.v]
      [] op.op = "setHeight" -> [st EXCEPT ![op.n].h = op.v]
      [] op.op = "setData" -> [st EXCEPT ![op.n].d = op.v]
      [] op.op = "setFormat" -> [st EXCEPT ![op.n].f = op.v]
      [] op.op = "setSource" -> [st EXCEPT ![op.n].s = st[op.a]]
      [] op.op = "setMarked" -> [st EXCEPT ![op.n].m = st[op.a]]
=============================================================================
