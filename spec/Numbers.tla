------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* The helper arithmetic (C22): factorials as exact integers in limbs, and *)
(* a source of pseudo-random numbers whose only state is its seed and the  *)
(* count of numbers drawn since.                                           *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets
Limbs == 80
One == [ i \in 1..Limbs |-> IF i = 1 THEN 1 ELSE 0 ]
\* 0! .. n!
Factorials(n) == FoldLeft(LAMBDA acc, k : Append(acc, Times(acc[k], k)), << One >>, [ k \in 1..n |-> k ])
\* a recorded value v of n!: exact as long as a double can hold it, else to one part in 2^40
Exactly == 18
RECURSIVE Doubled(_, _)
Doubled(a, k) == IF k = 0 THEN a ELSE Doubled(Times(a, 1024), k - 1)
Close(v, f) == LET d == IF Negative(Minus(v, f)) THEN Minus(f, v) ELSE Minus(v, f)
               IN Leq(Doubled(Widen(d, Limbs + 4), 4), Widen(f, Limbs + 4))
RightFactorial(n, v, table) == IF n <= Exactly THEN v = table[n + 1] ELSE Close(v, table[n + 1])

\* the known values of the function, at arguments in (0, 1), in units of 10^-9
Anchors == << << 100, 951350770 >>, << 200, 918168742 >>, << 250, 906402477 >>, << 300, 897470696 >>, << 400, 887263818 >>, << 500, 886226925 >>,
              << 600, 893515349 >>, << 700, 908638733 >>, << 750, 919062527 >>, << 800, 931383771 >>, << 900, 961765832 >> >>
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- the random source: drawn is a set of << seed, position, value >>
Consistent(drawn) == \A a, b \in drawn : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3]
Fits(drawn, s, i, v) == \A a \in drawn : a[1] = s /\ a[2] = i => a[3] = v
=============================================================================
