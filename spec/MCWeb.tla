-------------------------------- MODULE MCWeb -------------------------------
(* Histories of constructor, setter and getter calls on two models and a process. *)
EXTENDS Web, TLC, Json, IOUtils, CSV
CONSTANTS Limit, Numbers, Texts
Datas == { << >>, << 1, 2, 3, 255 >>, << 9 >> }
VARIABLES st, h, before
vars == << st, h, before >>
Models == {"x", "y"}
M0(d) == [w |-> 3, h |-> 5, d |-> << d >>]
Init == st = [ n \in {"x", "y", "p"} |-> IF n = "p" THEN [f |-> "Png", s |-> M0(10), m |-> M0(20)] ELSE IF n = "x" THEN M0(30) ELSE M0(40) ]
        /\ h = << >> /\ before = st
Ops == { [op |-> "model", n |-> n, w |-> w, h |-> w + 1, d |-> d] : n \in Models, w \in Numbers, d \in Datas }
  \cup { [op |-> "process", n |-> "p", f |-> f, a |-> a, b |-> b] : f \in Texts, a \in Models, b \in Models }
  \cup { [op |-> o, n |-> "p", to |-> t] : o \in {"getSource", "getMarked"}, t \in Models }
  \cup { [op |-> o, n |-> n, v |-> v] : o \in {"setWidth", "setHeight"}, n \in Models, v \in Numbers }
  \cup { [op |-> "setData", n |-> n, v |-> v] : n \in Models, v \in Datas }
  \cup { [op |-> "setFormat", n |-> "p", v |-> v] : v \in Texts }
  \cup { [op |-> o, n |-> "p", a |-> a] : o \in {"setSource", "setMarked"}, a \in Models }
Next == /\ Len(h) < Limit
        /\ \E op \in Ops : st' = Effect(st, op) /\ h' = Append(h, op) /\ before' = st
Spec == Init /\ [][Next]_vars
\* an operation changes its target alone, and a setter the one field alone
OneTarget == h # << >> => \A n \in DOMAIN st : n # Target(h[Len(h)]) => st[n] = before[n]
OneField == h # << >> /\ h[Len(h)].op \in {"setWidth", "setHeight", "setData"} =>
              LET op == h[Len(h)] a == st[op.n] b == before[op.n]
              IN (op.op = "setWidth" \/ a.w = b.w) /\ (op.op = "setHeight" \/ a.h = b.h) /\ (op.op = "setData" \/ a.d = b.d)
\* what was set is what is read
ReadBack == h # << >> => LET op == h[Len(h)] IN
              CASE op.op = "setWidth" -> st[op.n].w = op.v [] op.op = "setSource" -> st.p.s = st[op.a]
                [] op.op = "setMarked" -> st.p.m = st[op.a] [] op.op = "setData" -> st[op.n].d = op.v [] OTHER -> TRUE
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
Dump == Len(h) < Limit \/ CSVWrite("%1$s", << ToJson([kind |-> "history", h |-> h]) >>, IOEnv.OUT)
\* ---- blobs
VARIABLE blob
BInit == Init /\ blob \in [ f : DOMAIN FormatNames, colour : {"L8", "La8", "Rgb8", "Rgba8", "L16", "Rgb16"}, shape : {1, 2, 3}, depth : {1, 2, 3} ]
BSpec == BInit /\ [][UNCHANGED << vars, blob >>]_<< vars, blob >>
Possible == /\ blob.f = "jpeg" => blob.colour \in {"L8", "Rgb8"}
            /\ blob.f = "gif" => blob.colour \in {"Rgb8", "Rgba8"}
            /\ blob.f = "tiff" => blob.colour \notin {"La8"}
            /\ blob.f = "bmp" => blob.colour \in {"L8", "Rgb8", "Rgba8"}
BDump == ~Possible \/ CSVWrite("%1$s", << ToJson([kind |-> "blob", b |-> blob]) >>, IOEnv.OUT)
HInit == Init /\ blob = << >>
HSpec == HInit /\ [][Next /\ UNCHANGED blob]_<< vars, blob >>
=============================================================================
