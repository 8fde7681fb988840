------------------------------- MODULE MCHaar --------------------------------
(***************************************************************************)
(* All small matrices: the recursive pyramid has the block sums in its     *)
(* corner, loses nothing, and keeps the energy.  Also lists the shapes to  *)
(* be replayed.                                                            *)
(***************************************************************************)
EXTENDS Haar, FiniteSets, Json, IOUtils, CSV
CONSTANTS Values, Shapes, MaxSide, MaxLevel
Shapes1 == { <<2,2,1>>, <<2,4,1>>, <<4,2,1>>, <<4,4,2>> }
Shapes2 == { <<2,2,1>>, <<2,4,1>> }
Values2 == {-1, 0, 2}
VARIABLES x, L, done
vars == << x, L, done >>

Init == \/ /\ \E s \in Shapes : x \in [1..s[1] -> [1..s[2] -> Values]] /\ L = s[3]
           /\ done = "matrix"
        \/ /\ \E R \in 1..MaxSide, C \in 1..MaxSide : x = << R, C >>
           /\ L \in 1..MaxLevel /\ done = "shape"
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Sq(m) == SumTo([ k \in 1..(Rows(m) * Cols(m)) |-> m[((k - 1) \div Cols(m)) + 1][((k - 1) % Cols(m)) + 1] *
                 m[((k - 1) \div Cols(m)) + 1][((k - 1) % Cols(m)) + 1] ], Rows(m) * Cols(m))
Matrix == done = "matrix" =>
  /\ Divisible(Rows(x), Cols(x), L)
  /\ \E p \in {Pyramid(x, L)} :
       /\ \A i \in 1..(Rows(x) \div (2^L)), j \in 1..(Cols(x) \div (2^L)) : p[i][j] = BlockSum(x, i, j, L)
       /\ Sq(p) = (4 ^ L) * Sq(x)
       /\ L = 1 => Unstep(p) = [ i \in 1..Rows(x) |-> [ j \in 1..Cols(x) |-> 4 * x[i][j] ] ]
Dump == done = "shape" => CSVWrite("%1$s", << ToJson([R |-> x[1], C |-> x[2], L |-> L]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
