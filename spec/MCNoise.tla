------------------------------- MODULE MCNoise -------------------------------
(***************************************************************************)
(* A mark under disturbance (C20).  Coefficients of a few codewords, each  *)
(* known by its distance from the nearest multiple of the depth (4*Q);     *)
(* written at +Q or -Q up to half a pixel H; then drifting within the      *)
(* tolerance, then some of them destroyed.  A codeword with at most Corr   *)
(* lost coefficients is repaired.  The plans of disturbance are replayed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS W, K, Q, H, Corr
VARIABLES bit, r, lost, phase
vars == << bit, r, lost, phase >>
Cs == (1..W) \X (1..K)
Init == /\ bit \in [Cs -> {0, 1}]
        /\ r \in { [ c \in Cs |-> (IF bit[c] = 1 THEN Q ELSE -Q) + h ] : h \in {-H, 0, H} }
        /\ lost = {} /\ phase = "marked"
Tol == Q - H - 1
Drift == /\ phase = "marked"
         /\ \E e \in [Cs -> {-Tol, 0, Tol}] : r' = [ c \in Cs |-> r[c] + e[c] ]
         /\ phase' = "drifted" /\ UNCHANGED << bit, lost >>
\* a destroyed coefficient lies anywhere, on the border as well
Destroy == /\ phase = "drifted"
           /\ \E d \in { s \in SUBSET Cs : \A w \in 1..W : Cardinality({ k \in 1..K : << w, k >> \in s }) <= Corr + 1 } :
                /\ lost' = d
                /\ \E v \in {-2 * Q, -1, 0, 1, 2 * Q} : r' = [ c \in Cs |-> IF c \in d THEN v ELSE r[c] ]
           /\ phase' = "destroyed" /\ UNCHANGED bit
Next == Drift \/ Destroy
Spec == Init /\ [][Next]_vars
\* what is read from one coefficient
Reads(x) == IF x = 0 \/ x = 2 * Q \/ x = -2 * Q THEN {0, 1} ELSE IF x > 0 THEN {1} ELSE {0}
Wrong(w) == { k \in 1..K : Reads(r[<< w, k >>]) # {bit[<< w, k >>]} }
Owed == \A w \in 1..W : Cardinality(Wrong(w)) <= Corr
\* drifting loses nothing, and destroying loses no more than was destroyed
Drifting == phase = "drifted" => \A w \in 1..W : Wrong(w) = {}
Destroying == \A w \in 1..W : Wrong(w) \subseteq { k \in 1..K : << w, k >> \in lost }
Survives == (\A w \in 1..W : Cardinality({ k \in 1..K : << w, k >> \in lost }) <= Corr) => Owed

\* ---- plans: where the drift goes, how it is made of pixels, what is destroyed, what becomes of the unused blocks
CONSTANTS Domains, Levels
VARIABLE plan
Drifts == {"none", "up", "down", "in", "out", "apart", "random", "tiny"}
Pixels == {"even", "one pixel", "shuffled", "scrambled"}
\* what becomes of the blocks that carry nothing
Rests == {"kept", "random", "white", "black", "both", "extremes"}
Losses == {"none", "one", "two", "ends", "first word", "last word", "mixed", "neighbours"}
PInit == bit = << >> /\ r = << >> /\ lost = {} /\ phase = "plan" /\ plan = << >>
PNext == /\ plan = << >>
         /\ \E d \in Domains, l \in Levels, f \in Drifts, p \in Pixels, x \in Losses, u \in Rests :
              plan' = [d |-> d, L |-> l, drift |-> f, px |-> p, loss |-> x, rest |-> u]
         /\ UNCHANGED vars
PSpec == PInit /\ [][PNext]_<< vars, plan >>
NSpec == Init /\ plan = << >> /\ [][Next /\ UNCHANGED plan]_<< vars, plan >>
Dump == plan # << >> => CSVWrite("%1$s", << ToJson(plan) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
