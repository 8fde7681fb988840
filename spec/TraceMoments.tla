---------------------------- MODULE TraceMoments ----------------------------
(***************************************************************************)
(* Checks recorded basis matrices and complex moments (in millionths)      *)
(* against the exact ones.                                                 *)
(***************************************************************************)
EXTENDS Moments, Json, IOUtils
CONSTANT Prop
VARIABLES l, grid, values
vars == << l, grid, values >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ grid = << 0, 0, 0 >> /\ values = << >>
Grid == /\ l <= Len(Trace) /\ Trace[l].ev = "grid"
        /\ LET e == Trace[l]
           IN grid' = << e.N, e.n, e.m >> /\ values' = TLCEval(Values(e.N, e.n, e.m))
        /\ l' = l + 1
\* the matrix of basis values, conjugated; the repetition may be given with either sign
Matrix == /\ l <= Len(Trace) /\ Trace[l].ev = "matrix"
          /\ (LET e == Trace[l]
                  N == grid[1]
              IN /\ e.ok = 1 /\ Len(e.v) = N * N
                 /\ e.m \in { grid[3], -grid[3] }
                 /\ \A i \in 1..(N * N) : \E c \in { TLCEval(Conjugate(values[i][1])) } :
                      /\ CellMatches(e.v[i][1], e.tol, c[1], N, grid[2])
                      /\ CellMatches(e.v[i][2], e.tol, c[2], N, grid[2])) = TRUE
          /\ l' = l + 1 /\ UNCHANGED << grid, values >>
Moment == /\ l <= Len(Trace) /\ Trace[l].ev = "moment"
          /\ (LET e == Trace[l]
                  N == grid[1]
              IN /\ e.ok = 1
                 /\ N = IF e.R > e.C THEN e.R ELSE e.C
                 /\ \E s \in { TLCEval(MomentSum(values, N, e.R, e.C, e.x)) } :
                      /\ Sound(s[1]) /\ Sound(s[2])
                      /\ PartMatches(e.v[1], e.tol, s[1], N, grid[2], e.R * e.C)
                      /\ PartMatches(e.v[2], e.tol, s[2], N, grid[2], e.R * e.C)) = TRUE
          /\ l' = l + 1 /\ UNCHANGED << grid, values >>
Next == Grid \/ Matrix \/ Moment
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
