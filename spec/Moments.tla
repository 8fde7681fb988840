------------------------------ MODULE Moments -------------------------------
(***************************************************************************)
(* Zernike moments of any order n and repetition m (0 <= m <= n, of the    *)
(* same parity) as complex numbers, in exact integers (C25); the grid and  *)
(* the scale are those of Zernike.                                         *)
(***************************************************************************)
EXTENDS Zernike
\* (X + iY)^m
Turned(X, Y, m) ==
  FoldLeft(LAMBDA t, i : TLCEval(<< Minus(Times(t[1], X), Times(t[2], Y)), Plus(Times(t[1], Y), Times(t[2], X)) >>),
           << Big(1, W), Zero(W) >>, [ i \in 1..m |-> i ])
\* the basis value of order n and repetition m at one pixel, not yet conjugated
ValueAt(N, n, m, wt, x, y) ==
  LET X == (2 * x) - 1 - N
      Y == (2 * y) - 1 - N
      t == TLCEval(Turned(X, Y, m))
      r == TLCEval(Radial(wt, (n - m) \div 2, (X * X) + (Y * Y)))
  IN << Trim(Product(r, t[1]), W), Trim(Product(r, t[2]), W) >>
\* one basis value per pixel of the square, row by row
Values(N, n, m) ==
  LET wt == Weighted(N, n, m)
  IN [ i \in 1..(N * N) |-> << TLCEval(ValueAt(N, n, m, wt, ((i - 1) \div N) + 1, ((i - 1) % N) + 1)) >> ]
Conjugate(s) == << s[1], Minus(Zero(W), s[2]) >>
MomentSum(values, N, R, C, x) == Conjugate(Sums(values, N, R, C, x, 1))
Opposite(a) == Minus(Zero(Len(a)), a)
\* f millionths, of either sign, are the part of the moment whose sum is s
PartMatches(f, tol, s, N, n, P) ==
  \E g \in { IF Negative(s) THEN -f ELSE f } :
    Matches(g, tol, Product(s, s), N, n, P)
\* f millionths, of either sign, are s / ((N-1) sqrt(2))^n
CellMatches(f, tol, s, N, n) ==
  LET D == Power((N - 1) * (N - 1), n, W + W)
      D2 == FoldLeft(LAMBDA acc, i : Times(acc, 2), D, [ i \in 1..n |-> i ])
      side(v) == Product(Product(Big(v, 3), Big(v, 3)), D2)
      want == Product(Product(s, s), Ten4(3))
      g == IF Negative(s) THEN -f ELSE f
      lo == g - tol
      hi == g + tol
  IN /\ (lo > 0 => Leq(side(lo), want))
     /\ hi >= 0 /\ Leq(want, side(hi))
=============================================================================
