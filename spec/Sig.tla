--------------------------------- MODULE Sig ---------------------------------
(***************************************************************************)
(* An ideal deterministic signature scheme (C10; trusted by C11, C12).     *)
(* issued is the set of <<key, data, signature>> produced by signing; a    *)
(* signature verifies under a key for some data iff that triple is issued. *)
(***************************************************************************)
VARIABLE issued

Verifies(k, d, s) == << k, d, s >> \in issued
\* signing the same again gives the same signature; different things never share one
Fresh(k, d, s) == \A i \in issued : (i[1] = k /\ i[2] = d) <=> i[3] = s
Sign(k, d, s) == Fresh(k, d, s) /\ issued' = issued \cup { << k, d, s >> }
=============================================================================
