-------------------------------- MODULE Haar ---------------------------------
(***************************************************************************)
(* The multi-level two-dimensional Haar transform (C16) on integer         *)
(* matrices (sequences of rows).  Pyramid(x, L) is 2^L times the real      *)
(* coefficients, hence integer.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Rows(x) == Len(x)
Cols(x) == Len(x[1])

\* sums and differences of neighbours: one level, not normalised.
\* quadrants: sums, horizontal, vertical and diagonal differences
Step(x) ==
  LET R == Rows(x) \div 2
      C == Cols(x) \div 2
  IN [ i \in 1..(2 * R) |-> [ j \in 1..(2 * C) |->
        LET p == IF i <= R THEN i ELSE i - R
            q == IF j <= C THEN j ELSE j - C
            u == IF i <= R THEN 1 ELSE -1
            v == IF j <= C THEN 1 ELSE -1
        IN  x[(2*p)-1][(2*q)-1] + (v * x[(2*p)-1][2*q]) + (u * x[2*p][(2*q)-1]) + (u * v * x[2*p][2*q]) ] ]

Corner(x, R, C) == [ i \in 1..R |-> [ j \in 1..C |-> x[i][j] ] ]

\* coefficients of level l are (sums and differences) / 2^l
RECURSIVE Pyr(_, _, _)
Pyr(x, l, L) ==
  IF l > L THEN x
  ELSE LET t == TLCEval(Step(x))
           R == Rows(x) \div 2
           C == Cols(x) \div 2
           in == TLCEval(Pyr(TLCEval(Corner(t, R, C)), l + 1, L))
       IN  [ i \in 1..Rows(x) |-> [ j \in 1..Cols(x) |->
               IF i <= R /\ j <= C THEN in[i][j] ELSE (2 ^ (L - l)) * t[i][j] ] ]
Pyramid(x, L) == TLCEval(Pyr(x, 1, L))

Divisible(R, C, L) == R % (2 ^ L) = 0 /\ C % (2 ^ L) = 0 /\ R > 0 /\ C > 0

\* the sum of one block, straight from the definition
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
BlockSum(x, i, j, L) ==
  LET b == 2 ^ L
  IN SumTo([ k \in 1..(b * b) |-> x[((i - 1) * b) + ((k - 1) \div b) + 1][((j - 1) * b) + ((k - 1) % b) + 1] ], b * b)

\* the inverse of one level: four times the values
Unstep(t) ==
  LET R == Rows(t) \div 2
      C == Cols(t) \div 2
  IN [ i \in 1..(2 * R) |-> [ j \in 1..(2 * C) |->
        LET p == (i + 1) \div 2
            q == (j + 1) \div 2
            u == IF i % 2 = 1 THEN 1 ELSE -1
            v == IF j % 2 = 1 THEN 1 ELSE -1
        IN t[p][q] + (v * t[p][q + C]) + (u * t[p + R][q]) + (u * v * t[p + R][q + C]) ] ]
=============================================================================
