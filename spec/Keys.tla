-------------------------------- MODULE Keys ---------------------------------
(***************************************************************************)
(* Generated key pairs (C21).  A pair is new in both halves, whoever makes *)
(* it; its public half verifies what its private half signed, and nothing  *)
(* else does.  Text is a sequence of character codes.                      *)
(***************************************************************************)
EXTENDS Sig, Bytes
VARIABLE pairs
\* 32 bytes in lower-case hex
IsKeyText(t) == Len(t) = 64 /\ \A i \in 1..64 : t[i] \in (48..57) \cup (97..102)
New(a, b) == \A p \in pairs : p[1] # a /\ p[2] # b
Generate(a, b) == New(a, b) /\ pairs' = pairs \cup { << a, b >> }
=============================================================================
