----------------------------- MODULE MCMoments ------------------------------
(***************************************************************************)
(* The moments of every small image: a quarter turn multiplies them by a   *)
(* power of i, mirroring conjugates them, moments of disjoint images add   *)
(* up; on the rim every radial part is 1, in the centre 0 or (-1)^(n/2).   *)
(***************************************************************************)
EXTENDS Moments, Json, IOUtils, CSV
CONSTANTS Sides, MaxOrder
VARIABLES N, n, m, img, values, phase
vars == << N, n, m, img, values, phase >>
Init == /\ n \in 0..MaxOrder /\ m \in { j \in 0..n : (n - j) % 2 = 0 } /\ N \in Sides
        /\ values = TLCEval(Values(N, n, m)) /\ img = << >> /\ phase = "grid"
Draw == /\ phase = "grid" /\ phase' = "image"
        /\ img' \in (IF N < 4 THEN [1..(N * N) -> {0, 1}] ELSE { [ i \in 1..(N * N) |-> IF i = a THEN 1 ELSE 0 ] : a \in 1..(N * N) })
        /\ UNCHANGED << N, n, m, values >>
Spec == Init /\ [][Draw]_vars
Of(x) == TLCEval(MomentSum(values, N, N, N, x))
\* the pixel of row r and column c moves to row c and column N-1-r
Rot == [ i \in 1..(N * N) |-> img[((N - 1 - ((i - 1) % N)) * N) + ((i - 1) \div N) + 1] ]
Mir == [ i \in 1..(N * N) |-> img[(((i - 1) \div N) * N) + (N - 1 - ((i - 1) % N)) + 1] ]
TimesI(s, e) == CASE e % 4 = 0 -> s
                  [] e % 4 = 1 -> << Opposite(s[2]), s[1] >>
                  [] e % 4 = 2 -> << Opposite(s[1]), Opposite(s[2]) >>
                  [] OTHER -> << s[2], Opposite(s[1]) >>
Quarter == phase = "image" => Of(Rot) = TimesI(Of(img), m)
Mirrored == phase = "image" => Of(Mir) = Conjugate(Of(img))
Additive == phase = "image" =>
              LET first == [ i \in 1..(N * N) |-> IF i % 2 = 0 THEN img[i] ELSE 0 ]
                  other == [ i \in 1..(N * N) |-> img[i] - first[i] ]
                  a == Of(first)
                  b == Of(other)
              IN Of(img) = << Plus(a[1], b[1]), Plus(a[2], b[2]) >>
Rim == phase = "grid" =>
         FoldLeft(LAMBDA acc, s : Plus(acc, Coefficient(n, m, s)), Zero(W), [ s \in 1..(((n - m) \div 2) + 1) |-> s - 1 ]) = Big(1, W)
Scale == FoldLeft(LAMBDA acc, i : Times(acc, 2), Power((N - 1) * (N - 1), n \div 2, W), [ i \in 1..(n \div 2) |-> i ])
Centre == phase = "grid" /\ N % 2 = 1 =>
            LET c == values[(N * N + 1) \div 2][1]
            IN /\ c[2] = Zero(W)
               /\ c[1] = (IF m > 0 THEN Zero(W) ELSE IF n % 4 = 0 THEN Scale ELSE Opposite(Scale))
Dump == phase = "image" => CSVWrite("%1$s", << ToJson([N |-> N, n |-> n, m |-> m, x |-> img]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
