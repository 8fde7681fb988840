----------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of a channel (C11, C12): a mark is a perturbation vector, the  *)
(* values covered by a signature, the key that made it and whether it is   *)
(* intact.  Features are integers on the grid of ThreeBit (2*H per step).  *)
(***************************************************************************)
EXTENDS ThreeBit

NoMark == [pv |-> << >>, q |-> << >>, key |-> "none", whole |-> FALSE]
Values(f, H) == [ i \in 1..Len(f) |-> Cell(f[i], H) ]
MarkOf(f, H) == [pv |-> BitsOf(f, H), q |-> Values(f, H), key |-> "built-in", whole |-> TRUE]

\* the verdict on a channel with features f that carries the mark m
Accept(f, m, H) ==
  /\ m.key = "built-in" /\ m.whole
  /\ Len(m.pv) % 3 = 0 /\ Len(m.pv) \div 3 <= Len(f)
  /\ RestoreAll(f, m.pv, H) = m.q

\* no feature is further from its original than d
Within(f, g, d) == Len(f) = Len(g) /\ \A i \in 1..Len(f) : Abs(f[i] - g[i]) <= d
Beyond(f, g, d) == Len(f) = Len(g) /\ \E i \in 1..Len(f) : Abs(f[i] - g[i]) >= d
=============================================================================
