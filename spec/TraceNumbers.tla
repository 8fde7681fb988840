---------------------------- MODULE TraceNumbers -----------------------------
(* Checks recorded factorials and pseudo-random numbers (C22). *)
EXTENDS Numbers, Json, IOUtils
CONSTANT Prop
VARIABLES l, at, drawn
vars == << l, at, drawn >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ at = << >> /\ drawn = {}
Table == Factorials(170)

\* n!: a whole number, in limbs
Fact == /\ l <= Len(Trace) /\ Trace[l].ev = "fact"
        /\ Trace[l].ok = 1 /\ Trace[l].whole = 1
        /\ RightFactorial(Trace[l].n, Trace[l].v \o Zero(Limbs - Len(Trace[l].v)), Table)
        /\ l' = l + 1 /\ UNCHANGED << at, drawn >>
\* x thousandths; f(x + 1) / f(x) in millionths
Ratio == /\ l <= Len(Trace) /\ Trace[l].ev = "ratio"
         /\ Trace[l].ok = 1
         /\ Abs(Trace[l].q - ((Trace[l].x + 1000) * 1000)) <= 2
         /\ l' = l + 1 /\ UNCHANGED << at, drawn >>
\* f(x) in units of 10^-9
Anchor == /\ l <= Len(Trace) /\ Trace[l].ev = "anchor"
          /\ Trace[l].ok = 1
          /\ (\E a \in { Anchors[i] : i \in DOMAIN Anchors } : a[1] = Trace[l].x /\ Abs(a[2] - Trace[l].v) <= 2) = TRUE
          /\ l' = l + 1 /\ UNCHANGED << at, drawn >>

Start == /\ l <= Len(Trace) /\ Trace[l].ev = "start"
         /\ at' = [ i \in DOMAIN Trace[l].seeds |-> << Trace[l].seeds[i], 0 >> ]
         /\ l' = l + 1 /\ UNCHANGED drawn
Reseed == /\ l <= Len(Trace) /\ Trace[l].ev = "seed"
          /\ Trace[l].ok = 1
          /\ at' = [at EXCEPT ![Trace[l].i] = << Trace[l].s, 0 >>]
          /\ l' = l + 1 /\ UNCHANGED drawn
\* v: the value bit by bit, u: in millionths, rounded down
Unit == /\ l <= Len(Trace) /\ Trace[l].ev = "unit"
        /\ Trace[l].ok = 1 /\ Trace[l].u \in 0..999999
        /\ \E p \in { at[Trace[l].i] } :
             /\ Fits(drawn, p[1], p[2] + 1, << Trace[l].v, Trace[l].u >>)
             /\ drawn' = drawn \cup { << p[1], p[2] + 1, << Trace[l].v, Trace[l].u >> >> }
             /\ at' = [at EXCEPT ![Trace[l].i] = << p[1], p[2] + 1 >>]
        /\ l' = l + 1
\* a number between a and b, the unit number stretched; m in millionths
Stretch == /\ l <= Len(Trace) /\ Trace[l].ev = "range"
         /\ Trace[l].ok = 1
         /\ Min({Trace[l].a, Trace[l].b}) * 1000000 <= Trace[l].m /\ Trace[l].m <= Max({Trace[l].a, Trace[l].b}) * 1000000
         /\ \E p \in { at[Trace[l].i] } :
              /\ \A d \in drawn : d[1] = p[1] /\ d[2] = p[2] + 1 =>
                   Abs(Trace[l].m - ((Trace[l].a * 1000000) + (d[3][2] * (Trace[l].b - Trace[l].a)))) <= Abs(Trace[l].b - Trace[l].a) + 2
              /\ at' = [at EXCEPT ![Trace[l].i] = << p[1], p[2] + 1 >>]
         /\ l' = l + 1 /\ UNCHANGED drawn
\* how many of n numbers fell in each tenth of the unit interval
Tenths == /\ l <= Len(Trace) /\ Trace[l].ev = "tenths"
          /\ Trace[l].ok = 1
          /\ Len(Trace[l].c) = 10 /\ \A i \in 1..10 : 20 * Trace[l].c[i] >= Trace[l].n /\ 5 * Trace[l].c[i] <= Trace[l].n
          /\ l' = l + 1 /\ UNCHANGED << at, drawn >>
Next == Fact \/ Ratio \/ Anchor \/ Start \/ Reseed \/ Unit \/ Stretch \/ Tenths
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
