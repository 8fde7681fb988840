---------------------------- MODULE TraceZernike ----------------------------
(***************************************************************************)
(* Checks recorded features (in millionths) against the exact moments.     *)
(***************************************************************************)
EXTENDS Zernike, Json, IOUtils
CONSTANT Prop
VARIABLES l, N, basis, last
vars == << l, N, basis, last >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ N = 0 /\ basis = << >> /\ last = << >>
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Grid == /\ l <= Len(Trace) /\ Trace[l].ev = "grid"
        /\ N' = Trace[l].N /\ basis' = TLCEval(Basis(Trace[l].N, Trace[l].k))
        /\ last' = << >> /\ l' = l + 1
\* features of an image, against the moments
FeatEv == /\ l <= Len(Trace) /\ Trace[l].ev = "feat"
          /\ (LET e == Trace[l]
                  n == (2 * e.k) - 1
              IN /\ e.ok = 1 /\ Len(e.f) = e.k
                 /\ N = IF e.R > e.C THEN e.R ELSE e.C
                 /\ \E x \in {e.x} : \A j \in 1..e.k :
                      \E S \in { TLCEval(Square(Sums(basis, N, e.R, e.C, x, j))) } :
                         Sound(S) /\ Matches(e.f[j], e.tol, S, N, n, e.R * e.C)) = TRUE
          /\ last' = Trace[l].f /\ l' = l + 1 /\ UNCHANGED << N, basis >>
\* a grid too large to list; few pixels of the images are not zero
Wide == /\ l <= Len(Trace) /\ Trace[l].ev = "wide"
        /\ N' = Trace[l].N /\ basis' = TLCEval(Weights(Trace[l].N, Trace[l].k))
        /\ last' = << >> /\ l' = l + 1
Spots == /\ l <= Len(Trace) /\ Trace[l].ev = "spots"
         /\ (LET e == Trace[l]
                 n == (2 * e.k) - 1
             IN /\ e.ok = 1 /\ Len(e.f) = e.k /\ Len(basis) = e.k
                /\ N = IF e.R > e.C THEN e.R ELSE e.C
                /\ \E sums \in { TLCEval(SpotSums(basis, N, e.k, e.R, e.C, e.at)) } : \A j \in 1..e.k :
                     \E S \in { TLCEval(Square(sums[j])) } :
                        Sound(S) /\ Matches(e.f[j], e.tol, S, N, n, e.R * e.C)) = TRUE
         /\ last' = Trace[l].f /\ l' = l + 1 /\ UNCHANGED << N, basis >>
\* features taken as the base of comparison
Start == /\ l <= Len(Trace) /\ Trace[l].ev = "start"
         /\ Trace[l].ok = 1 /\ Len(Trace[l].f) = Trace[l].k
         /\ last' = Trace[l].f /\ l' = l + 1 /\ UNCHANGED << N, basis >>
\* features of the same image turned or mirrored (by = 1), or with every pixel multiplied
Same == /\ l <= Len(Trace) /\ Trace[l].ev = "same"
        /\ LET e == Trace[l]
           IN /\ e.ok = 1 /\ Len(e.f) = Len(last)
              /\ \A j \in 1..Len(last) : Near(e.f[j], last[j] * e.by, e.tol * e.by)
        /\ l' = l + 1 /\ UNCHANGED << N, basis, last >>
Next == Grid \/ FeatEv \/ Wide \/ Spots \/ Start \/ Same
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
