------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* Calls by several threads (C18).  F is the one result of each call; what *)
(* the library keeps between calls may not show.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* pending: thread -> call in progress (0: none); a call may end only with its own result
Begin(pending, t, c) == IF pending[t] = 0 THEN [pending EXCEPT ![t] = c] ELSE pending
CanBegin(pending, t) == pending[t] = 0
CanEnd(pending, t, c) == pending[t] = c /\ c # 0
Ended(pending, t) == [pending EXCEPT ![t] = 0]
=============================================================================
