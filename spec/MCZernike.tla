----------------------------- MODULE MCZernike ------------------------------
(***************************************************************************)
(* The moments of every small image: exactly unchanged by quarter turns    *)
(* and mirroring.  The coefficients of every order add up to 1 on the rim. *)
(* The images are written out and replayed.                                *)
(***************************************************************************)
EXTENDS Zernike, Json, IOUtils, CSV
CONSTANTS Sides, UnitSides, MaxK
VARIABLES N, k, img, basis, phase
vars == << N, k, img, basis, phase >>
Init == /\ k \in 1..MaxK /\ N \in Sides \cup UnitSides
        /\ basis = TLCEval(Basis(N, k)) /\ img = << >> /\ phase = "grid"
Images == IF N \in Sides THEN [1..(N * N) -> {0, 1}]
          ELSE { [ i \in 1..(N * N) |-> IF i = a \/ i = b THEN 1 ELSE 0 ] : a \in 1..(N * N), b \in 1..(N + 1) }
Draw == phase = "grid" /\ phase' = "image" /\ img' \in Images /\ UNCHANGED << N, k, basis >>
Spec == Init /\ [][Draw]_vars
Rot == [ i \in 1..(N * N) |-> LET r == (i - 1) \div N
                                  c == (i - 1) % N
                              IN img[((N - 1 - c) * N) + r + 1] ]
Mir == [ i \in 1..(N * N) |-> LET r == (i - 1) \div N
                                  c == (i - 1) % N
                              IN img[(r * N) + (N - 1 - c) + 1] ]
Sq(x, j) == Square(Sums(basis, N, N, N, x, j))
Symmetric == phase = "image" => \A j \in 1..k : \E s \in { TLCEval(Sq(img, j)) } : s = Sq(Rot, j) /\ s = Sq(Mir, j)
NoLoss == phase = "image" => \A j \in 1..k : Sound(Square(Sums(basis, N, N, N, img, j)))
Rim == phase = "grid" => \A j \in 1..k :
         FoldLeft(LAMBDA acc, s : Plus(acc, Coefficient((2 * k) - 1, (2 * j) - 1, s)), Zero(W), [ s \in 1..(k - j + 1) |-> s - 1 ]) = Big(1, W)
Dump == phase = "image" => CSVWrite("%1$s", << ToJson([N |-> N, k |-> k, x |-> img]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
