------------------------------ MODULE MCHistory -----------------------------
(***************************************************************************)
(* A library that may remember results between calls, used by threads in   *)
(* any interleaving, refused calls included.  A call is an operation with  *)
(* a vector of arguments, each one of a few variants (0: the usual one).   *)
(* Key is the set of argument places by which results are remembered: if   *)
(* it is all of them the memory never shows; if one is left out TLC finds  *)
(* the history in which it does.  PSpec writes out the sessions the        *)
(* recorder makes in new processes: every ordered pair of calls of a group *)
(* that differ from the usual call in at most Changes places.              *)
(***************************************************************************)
EXTENDS History, TLC, Json, IOUtils, CSV
CONSTANTS Threads, Key, Limit, Changes
VARIABLES pending, cache, count, last
vars == << pending, cache, count, last >>
\* three argument places with two variants each; a third variant of the first place is refused
Calls == { (a * 100) + (b * 10) + c : a \in 1..3, b \in 1..2, c \in 1..2 }
Place(v, i) == CASE i = 1 -> v \div 100 [] i = 2 -> (v \div 10) % 10 [] OTHER -> v % 10
Refused(v) == Place(v, 1) = 3
F(v) == IF Refused(v) THEN 0 ELSE v * 7
KeyOf(v) == [ i \in Key |-> Place(v, i) ]
Init == /\ pending = [t \in Threads |-> 0] /\ cache = << >> /\ count = 0 /\ last = << 0, 0 >>
Start(t) == /\ CanBegin(pending, t) /\ count < Limit
            /\ \E v \in Calls : pending' = Begin(pending, t, v)
            /\ count' = count + 1 /\ UNCHANGED << cache, last >>
Finish(t) == /\ pending[t] # 0
             /\ LET v == pending[t]
                    known == { i \in 1..Len(cache) : cache[i][1] = KeyOf(v) }
                    r == IF Refused(v) \/ known = {} THEN F(v) ELSE cache[CHOOSE i \in known : TRUE][2]
                IN /\ CanEnd(pending, t, v)
                   /\ last' = << v, r >>
                   /\ cache' = IF Refused(v) \/ known # {} THEN cache ELSE Append(cache, << KeyOf(v), r >>)
             /\ pending' = Ended(pending, t) /\ UNCHANGED count
Next == \E t \in Threads : Start(t) \/ Finish(t)
Consistent == last[1] # 0 => last[2] = F(last[1])
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
VARIABLE pair
SInit == Init /\ pair = << >>
SSpec == SInit /\ [][Next /\ UNCHANGED pair]_<< vars, pair >>

\* ---- the sessions of the recorder: groups of operations that may share a memory
Groups == <<
  << << "features", << 13, 4, 7 >> >> >>,
  << << "quantise", << 6, 9 >> >>, << "restore", << 6, 9, 5 >> >> >>,
  << << "encode", << 16, 8 >> >>, << "decode", << 12, 8 >> >> >>,
  << << "embed", << 8, 3, 6, 8, 6 >> >>, << "extract", << 3, 6, 7 >> >> >>,
  << << "sign", << 6, 9 >> >>, << "verify", << 4, 9, 6 >> >> >>,
  << << "serialise", << 6, 8, 5 >> >>, << "deserialise", << 9 >> >> >>,
  << << "mark", << 4, 6, 5, 4, 3 >> >>, << "authenticate", << 7, 6, 5, 4, 3 >> >> >>,
  << << "to16", << 8 >> >>, << "from16", << 8 >> >>, << "to64", << 8 >> >>, << "from64", << 8 >> >>, << "hex", << 8 >> >>, << "unhex", << 9 >> >> >>
>>
\* calls that differ from the usual one in at most n places
RECURSIVE Vary(_, _)
Vary(arity, n) ==
  IF arity = << >> THEN { << >> }
  ELSE { << 0 >> \o v : v \in Vary(Tail(arity), n) }
       \cup (IF n = 0 THEN {} ELSE { << x >> \o v : x \in 1..(Head(arity) - 1), v \in Vary(Tail(arity), n - 1) })
Of(op, n) == { << op[1] >> \o v : v \in Vary(op[2], n) }
Members(g, n) == UNION { Of(Groups[g][i], n) : i \in 1..Len(Groups[g]) }
\* whatever places a memory leaves out of its key, two of these calls collide in it
Exposed == \A g \in 1..Len(Groups) : \A i \in 1..Len(Groups[g]) :
             LET m == Of(Groups[g][i], 1)
                 places == 2..(Len(Groups[g][i][2]) + 1)
             IN \A p \in places : \E a, b \in m : a # b /\ \A q \in places \ {p} : a[q] = b[q]
ASSUME Exposed
PInit == Init /\ \E g \in 1..Len(Groups) : LET m == TLCEval(Members(g, Changes)) IN pair \in { << a, b >> : a \in m, b \in m }
PSpec == PInit /\ [][UNCHANGED << vars, pair >>]_<< vars, pair >>
Dump == CSVWrite("%1$s", << ToJson([a |-> pair[1], b |-> pair[2]]) >>, IOEnv.OUT)
=============================================================================
