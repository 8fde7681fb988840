------------------------------ MODULE TraceEcc -------------------------------
(***************************************************************************)
(* Checks recorded encodings and decodings against Ecc and Ldpc.           *)
(* State: the message coded last, its domain and its coded form.           *)
(***************************************************************************)
EXTENDS Ecc, Ldpc, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, D, m, c
vars == << l, D, m, c >>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ D = 0 /\ m = << >> /\ c = << >>

Checks(code) == TLCEval([ ch \in 0..(NChecks(code) - 1) |-> BitsOfCheck(code, ch) ])
\* parity checks of each code, listed once
ChecksTC128 == Checks("TC128")
ChecksTC256 == Checks("TC256")
ChecksTC512 == Checks("TC512")
ChecksTM2048 == Checks("TM2048")
ChecksTM8192 == Checks("TM8192")
ChecksOf(code) == CASE code = "TC128" -> ChecksTC128 [] code = "TC256" -> ChecksTC256
                    [] code = "TC512" -> ChecksTC512 [] code = "TM2048" -> ChecksTM2048
                    [] code = "TM8192" -> ChecksTM8192

\* w: the codeword followed by the punctured bits (found by the recorder; the
\* checks decide whether they are the right ones)
IsCodeword(code, w) ==
  \E ww \in {w} : \E bits \in { TLCEval([ v \in 0..(NVars(code) - 1) |-> BitAt(ww, v) ]) } :
  \E checks \in { ChecksOf(code) } :
    \A ch \in 0..(NChecks(code) - 1) :
      Cardinality({ v \in checks[ch] : bits[v] = 1 }) % 2 = 0

EncodedOK(e) ==
  LET code == CodeOf(e.D)
  IN IF Len(e.m) > MaxMessage THEN e.ok = 0
     ELSE /\ e.ok = 1
          /\ Len(e.c) = CodedLen(Len(e.m), e.D)
          /\ IF code = "none" THEN e.c = Framed(e.m)
             ELSE \E f \in { Framed(e.m) } : \A w \in 1..Words(Len(e.m), e.D) :
                    /\ SubSeq(e.c, (w - 1) * NBytes(code) + 1, (w - 1) * NBytes(code) + KBytes(code))
                         = Share(f, w, KBytes(code))
                    /\ (\E i \in 1..Len(e.pw) : e.pw[i] = w) =>
                         \E i \in 1..Len(e.pw) : e.pw[i] = w /\ IsCodeword(code, Codeword(e.c, w, NBytes(code)) \o e.p[i])

Encode == /\ l <= Len(Trace) /\ Trace[l].ev = "enc"
          /\ LET e == Trace[l] IN
             /\ Prop = "C05" => EncodedOK(e)
             /\ D' = e.D /\ m' = e.m /\ c' = e.c
          /\ l' = l + 1

\* a message too long to be recorded in full
Refused == /\ l <= Len(Trace) /\ Trace[l].ev = "long"
           /\ Prop = "C05" => (Trace[l].ok = 1) = (Trace[l].n <= MaxMessage)
           /\ l' = l + 1 /\ UNCHANGED << D, m, c >>

\* no codeword is hit more than twice, and only the coded message is hit
Light(fl) == /\ \A i \in 1..Len(fl) : fl[i][1] \in 1..Words(Len(m), D)
             /\ \A i \in 1..Len(fl) : Cardinality({ j \in 1..Len(fl) : fl[j][1] = fl[i][1] }) <= 2
Decode == /\ l <= Len(Trace) /\ Trace[l].ev = "dec"
          /\ LET e == Trace[l] IN
             /\ Light(e.fl)
             /\ \/ (IF e.fl = << >> THEN Prop # "C05" ELSE Prop # "C06")
                \/ e.ok = 1 /\ e.o = m
          /\ l' = l + 1 /\ UNCHANGED << D, m, c >>

\* one bit of one codeword flipped together with others in turn
Sweep == /\ l <= Len(Trace) /\ Trace[l].ev = "sweep"
         /\ LET e == Trace[l] IN
            /\ e.cw \in 1..Words(Len(m), D) /\ e.bit < NBits(CodeOf(D))
            /\ e.tried > 0 /\ e.from + (e.stride * (e.tried - 1)) < NBits(CodeOf(D))
            /\ Prop = "C06" => e.refused = 0 /\ e.outs = << m >>
         /\ l' = l + 1 /\ UNCHANGED << D, m, c >>

\* the pairs of flips that MCLdpc needs most rounds for, and their cyclic shifts
Pairs == /\ l <= Len(Trace) /\ Trace[l].ev = "pairs"
         /\ LET e == Trace[l] IN
            /\ e.cw \in 1..Words(Len(m), D)
            /\ \A i \in 1..Len(e.fl) : e.fl[i][1] < NBits(CodeOf(D)) /\ e.fl[i][2] < NBits(CodeOf(D))
            /\ Prop = "C06" => e.refused = 0 /\ e.outs = << m >>
         /\ l' = l + 1 /\ UNCHANGED << D, m, c >>

Next == Encode \/ Refused \/ Decode \/ Sweep \/ Pairs
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
