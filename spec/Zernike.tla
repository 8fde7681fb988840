------------------------------ MODULE Zernike -------------------------------
(***************************************************************************)
(* Zernike moments of a pixel grid in exact integers (C17).                *)
(* The pixel in row x and column y (1..N) of the square of side N has its  *)
(* centre at (X, Y) / ((N-1)*sqrt(2)) with X = 2x-1-N, Y = 2y-1-N.  The    *)
(* basis value of order n and repetition m times ((N-1)*sqrt(2))^n is      *)
(*   (X + iY)^m * SUM_s (-1)^s c(s) (X^2+Y^2)^(k-s) (2(N-1)^2)^s,          *)
(* k = (n-m)/2, c(s) = (n-s)! / (s! ((n+m)/2-s)! ((n-m)/2-s)!).            *)
(***************************************************************************)
EXTENDS BigInt, TLC
CONSTANT W      \* limbs of a basis value

RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 THEN 1 ELSE (Binomial(n - 1, k - 1) * n) \div k
RECURSIVE Power(_, _, _)
Power(k, e, n) == IF e = 0 THEN Big(1, n) ELSE Times(Power(k, e - 1, n), k)

\* (-1)^s c(s) = (-1)^s C(n-s, s) C(n-2s, k-s), in W limbs; both factors fit 31 bits up to order 30
Coefficient(n, m, s) ==
  LET k == (n - m) \div 2
      p == Product(Big(Binomial(n - s, s), 3), Big(Binomial(n - (2 * s), k - s), 3))
      v == Widen(p, W)
  IN IF s % 2 = 0 THEN v ELSE Minus(Zero(W), v)

\* coefficients times (2(N-1)^2)^s
Weighted(N, n, m) == TLCEval([ s \in 0..((n - m) \div 2) |->
   Trim(Product(Coefficient(n, m, s), Power(2 * (N - 1) * (N - 1), s, W)), W) ])

\* Horner in X^2+Y^2 (at most 2(N-1)^2)
Radial(wt, k, rho) == FoldLeft(LAMBDA acc, s : Plus(Times(acc, rho), wt[s]), Zero(W), [ s \in 1..(k + 1) |-> s - 1 ])

\* (X + iY)^m for m = 1, 3, ..., 2k-1
Turns(X, Y, k) ==
  LET a == (X * X) - (Y * Y)
      c == 2 * X * Y
      next(acc, j) == LET t == acc[Len(acc)]
                      IN Append(acc, << Minus(Times(t[1], a), Times(t[2], c)), Plus(Times(t[1], c), Times(t[2], a)) >>)
  IN FoldLeft(next, << << Big(X, W), Big(Y, W) >> >>, [ j \in 1..(k - 1) |-> j ])

\* the basis values of order 2k-1 at one pixel, for m = 1, 3, ..., 2k-1; wts[j] the weighted coefficients
AtPixel(N, k, wts, x, y) ==
  LET X == (2 * x) - 1 - N
      Y == (2 * y) - 1 - N
      rho == (X * X) + (Y * Y)
      t == TLCEval(Turns(X, Y, k))
  IN [ j \in 1..k |-> LET r == TLCEval(Radial(wts[j], k - j, rho))
                      IN << Trim(Product(r, t[j][1]), W), Trim(Product(r, t[j][2]), W) >> ]
Weights(N, k) == TLCEval([ j \in 1..k |-> Weighted(N, (2 * k) - 1, (2 * j) - 1) ])
Basis(N, k) ==
  LET wts == Weights(N, k)
  IN [ i \in 1..(N * N) |-> TLCEval(AtPixel(N, k, wts, ((i - 1) \div N) + 1, ((i - 1) % N) + 1)) ]

\* the j-th sum over an image of R rows and C columns (row by row) centred in the square
Sums(basis, N, R, C, x, j) ==
  LET or == (N - R) \div 2
      oc == (N - C) \div 2
      add(acc, i) ==
        IF x[i] = 0 THEN acc
        ELSE LET b == basis[((or + ((i - 1) \div C)) * N) + oc + ((i - 1) % C) + 1][j]
             IN << Plus(acc[1], Times(b[1], x[i])), Plus(acc[2], Times(b[2], x[i])) >>
  IN FoldLeft(add, << Zero(W), Zero(W) >>, [ i \in 1..(R * C) |-> i ])

\* the sums over an image of R rows and C columns with few pixels that are not zero: at[i] = <<row, column, value>>,
\* rows and columns from 0
SpotSums(wts, N, k, R, C, at) ==
  LET or == (N - R) \div 2
      oc == (N - C) \div 2
      add(acc, s) == \* one more pixel
        LET b == TLCEval(AtPixel(N, k, wts, or + s[1] + 1, oc + s[2] + 1))
        IN TLCEval([ j \in 1..k |-> << Plus(acc[j][1], Times(b[j][1], s[3])), Plus(acc[j][2], Times(b[j][2], s[3])) >> ])
  IN FoldLeft(add, [ j \in 1..k |-> << Zero(W), Zero(W) >> ], at)

\* square of the magnitude
Square(s) == Plus(Product(s[1], s[1]), Product(s[2], s[2]))

\* f millionths are the feature whose sum has the square S, up to tol millionths:
\* feature = (n+1)/pi * sqrt(S) / (P * ((N-1)*sqrt(2))^n)
PiLo == 314159265
PiHi == 314159266
Ten4(e) == FoldLeft(LAMBDA acc, i : Times(acc, 10000), Big(1, 12), [ i \in 1..e |-> i ])
Matches(f, tol, S, N, n, P) ==
  LET D == Times(Power((N - 1) * (N - 1), n, W + W), 1)
      D2 == FoldLeft(LAMBDA acc, i : Times(acc, 2), D, [ i \in 1..n |-> i ])
      PP == Product(Big(P, 3), Big(P, 3))
      side(g, p) == Product(Product(Product(Big(g, 3), Big(p, 3)), Product(Big(g, 3), Big(p, 3))), Product(PP, D2))
      want == Product(Product(S, Ten4(7)), Big((n + 1) * (n + 1), 3))
      lo == f - tol
      hi == f + tol
  IN /\ (lo > 0 => Leq(side(lo, PiLo), want))
     /\ hi >= 0 /\ Leq(want, side(hi, PiHi))
=============================================================================
