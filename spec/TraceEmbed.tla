----------------------------- MODULE TraceEmbed ------------------------------
(***************************************************************************)
(* Checks recorded embeddings and extractions against Embed, Ecc, Ldpc.    *)
(* State: the image written last and what a reader must find in it; for    *)
(* C20 also the marked image itself, before it was disturbed.              *)
(***************************************************************************)
EXTENDS Embed, Ldpc, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, payload, readable, mark
vars == << l, payload, readable, mark >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* readable: "yes", "no" (nothing is owed), "refused"
Init == l = 1 /\ payload = << >> /\ readable = "no" /\ mark = << >>

Checks(code) == TLCEval([ ch \in 0..(NChecks(code) - 1) |-> BitsOfCheck(code, ch) ])
ChecksTC128 == Checks("TC128")
ChecksTC256 == Checks("TC256")
ChecksTC512 == Checks("TC512")
ChecksTM2048 == Checks("TM2048")
ChecksTM8192 == Checks("TM8192")
ChecksOf(code) == CASE code = "TC128" -> ChecksTC128 [] code = "TC256" -> ChecksTC256
                    [] code = "TC512" -> ChecksTC512 [] code = "TM2048" -> ChecksTM2048
                    [] code = "TM8192" -> ChecksTM8192
IsCodeword(code, w) ==
  \E ww \in {w} : \E bits \in { TLCEval([ v \in 0..(NVars(code) - 1) |-> BitAt(ww, v) ]) } :
  \E checks \in { ChecksOf(code) } :
    \A ch \in 0..(NChecks(code) - 1) :
      Cardinality({ v \in checks[ch] : bits[v] = 1 }) % 2 = 0

\* c is the coded form of m for a domain of D bytes; p: punctured bits per codeword
IsCoded(c, p, m, D) ==
  LET code == CodeOf(D)
  IN IF code = "none" THEN c = Framed(m)
     ELSE /\ Len(c) = CodedLen(Len(m), D) /\ Len(p) = Words(Len(m), D)
          /\ \E f \in { Framed(m) } : \A w \in 1..Words(Len(m), D) :
               /\ SubSeq(c, (w - 1) * NBytes(code) + 1, (w - 1) * NBytes(code) + KBytes(code))
                    = Share(f, w, KBytes(code))
               /\ IsCodeword(code, Codeword(c, w, NBytes(code)) \o p[w])

\* the pixels of the block at <<i, j>> (0..), in one sequence, and their sum
Block(x, i, j, b) == [ k \in 1..(b * b) |-> x[(i * b) + ((k - 1) \div b) + 1][(j * b) + ((k - 1) % b) + 1] ]
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Total(s) == SumSeq(s, Len(s))

\* every pixel of the block moved by one of the shifts, clamped
MovedBy(bx, by, shifts) == \A k \in DOMAIN bx : \E s \in shifts : by[k] = Clamp(bx[k] + s)

\* C02: one common shift within the bound, or a half-way one.
\* (A pixel that was not clamped shows the shift; where all were clamped the longest one explains them best.)
CommonShift(bx, by, DD, b, top) ==
  \/ \E s \in { by[k] - bx[k] : k \in DOMAIN bx } \cup {top, -top} : s <= top /\ -s <= top /\ MovedBy(bx, by, {s})
  \/ \E S \in { Total(bx) } : \E bit \in {0, 1} : \E t \in Targets(S, bit, DD) :
       \E near \in { Near(t - (64 * S), 64 * b * b) } :
          /\ \A s \in near : s <= top /\ -s <= top
          /\ MovedBy(bx, by, near)

SameShape(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Len(x[i]) = Len(y[i])

BlockOK(bx, by, b, DD, n, bits, c, top) ==
  IF n >= bits THEN by = bx
  ELSE IF Prop = "C02" THEN CommonShift(bx, by, DD, b, top)
  ELSE \E S \in { Total(bx) } : \E t \in Targets(S, BitOf(c, n), DD) :
         \E near \in { Near(t - (64 * S), 64 * b * b) } : MovedBy(bx, by, near)

MarkOK(e, x, y, c) ==
  \E b \in { Side(e.L) } : \E cols \in { e.C \div b }, rows \in { e.R \div b } :
  \E bits \in { 8 * Written(Len(e.m), Capacity(e.R, e.C, e.L)) }, DD \in { e.DD } :
  \E top \in { MaxShift(DD, b) } :
     /\ SameShape(x, y)
     /\ \A i \in 0..(rows - 1), j \in 0..(cols - 1) :
          \E bx \in { TLCEval(Block(x, i, j, b)) }, by \in { TLCEval(Block(y, i, j, b)) } :
             BlockOK(bx, by, b, DD, (i * cols) + j, bits, c, top)

\* an embedding recorded with both images; e.m payload, e.c and e.p witness of the coded form
EmbedEv ==
  /\ l <= Len(Trace) /\ Trace[l].ev = "embed"
  /\ LET e == Trace[l]
         D == Capacity(e.R, e.C, e.L)
     IN /\ (e.ok = 1) = Accepts(e.R, e.C, e.L, Len(e.m)) \/ Prop \in {"C01", "C02", "C03", "C20"}
        /\ e.ok = 1 /\ Accepts(e.R, e.C, e.L, Len(e.m)) /\ Prop \in {"C02", "C03"} =>
             (\E x \in {e.x}, y \in {e.y}, c \in {e.c} :
               /\ Prop = "C03" => IsCoded(c, e.p, Wrapped(e.m), D)
               /\ MarkOK(e, x, y, c)) = TRUE
        /\ payload' = e.m
        /\ readable' = IF e.ok = 0 THEN "refused"
                       ELSE IF Deep(e.DD, Side(e.L)) /\ Headroom(e.lo, e.hi, e.DD, Side(e.L)) THEN "yes" ELSE "no"
        /\ mark' = IF Prop = "C20" THEN << e, readable' >> ELSE << >>
  /\ l' = l + 1

\* an embedding in a large domain, recorded by some of its blocks: e.at[i] = <<number, pixels before, pixels after>>
\* (the codewords themselves are checked for the first and the last)
SampleEv ==
  /\ l <= Len(Trace) /\ Trace[l].ev = "sample"
  /\ LET e == Trace[l]
         D == Capacity(e.R, e.C, e.L)
         code == CodeOf(D)
     IN /\ e.ok = 1 /\ Accepts(e.R, e.C, e.L, Len(e.m))
        /\ Len(e.c) = CodedLen(Len(Wrapped(e.m)), D)
        /\ (Prop = "C03" => \E f \in { Framed(Wrapped(e.m)) }, c \in { e.c } : IF code = "none" THEN c = f ELSE \A w \in 1..Words(Len(Wrapped(e.m)), D) :
              /\ SubSeq(c, (w - 1) * NBytes(code) + 1, (w - 1) * NBytes(code) + KBytes(code)) = Share(f, w, KBytes(code))
              /\ (w \in {1, Words(Len(Wrapped(e.m)), D)} => IsCodeword(code, Codeword(c, w, NBytes(code)) \o e.p[w]))) = TRUE
        /\ (\E c \in { e.c }, at \in { e.at }, b \in { Side(e.L) }, DD \in { e.DD }, bits \in { 8 * Len(e.c) } :
             \A i \in 1..Len(at) : BlockOK(at[i][2], at[i][3], b, DD, at[i][1], bits, c, MaxShift(DD, b))) = TRUE
        /\ payload' = e.m
        /\ readable' = IF Deep(e.DD, Side(e.L)) /\ Headroom(e.lo, e.hi, e.DD, Side(e.L)) THEN "yes" ELSE "no"
  /\ l' = l + 1 /\ UNCHANGED mark

\* a request too large, or with a depth off the grid, recorded without the images (e.DD is rounded up)
AskEv ==
  /\ l <= Len(Trace) /\ Trace[l].ev = "ask"
  /\ LET e == Trace[l]
     IN /\ Prop = "C04" => (e.ok = 1) = Accepts(e.R, e.C, e.L, e.n)
        /\ readable' = IF e.ok = 0 THEN "refused"
                       ELSE IF e.deep = 1 /\ Headroom(e.lo, e.hi, e.DD, Side(e.L)) THEN "yes" ELSE "no"
        /\ payload' = e.m
  /\ l' = l + 1 /\ UNCHANGED mark

\* a mark laid out by the recorder; the specification decides that it is one
RefEv ==
  /\ l <= Len(Trace) /\ Trace[l].ev = "ref"
  /\ LET e == Trace[l]
         D == Capacity(e.R, e.C, e.L)
         b == Side(e.L)
         cols == e.C \div b
     IN /\ Accepts(e.R, e.C, e.L, Len(e.m))
        /\ IsCoded(e.c, e.p, Wrapped(e.m), D) = TRUE
        /\ (\E x \in {e.x}, c \in {e.c}, DD \in {e.DD}, bb \in {b}, cc \in {cols} : \A n \in 0..((8 * Len(c)) - 1) :
             \E S \in { Total(TLCEval(Block(x, n \div cc, n % cc, bb))) } : ReadBits(S, DD) = { BitOf(c, n) }) = TRUE
        /\ payload' = e.m /\ readable' = "yes"
  /\ l' = l + 1 /\ UNCHANGED mark

\* the pixels of the marked image have changed (C20): the payload is owed still if every coefficient in use moved
\* within the tolerance or kept its side, but for two of each codeword where there is a code
Lost(y, z, n, cols, b, DD) ==
  \E S \in { Total(TLCEval(Block(y, n \div cols, n % cols, b))) } : \E T \in { Total(TLCEval(Block(z, n \div cols, n % cols, b))) } :
    ~(\/ Tolerated(T - S, DD, b)
      \/ ReadBits(T, DD) = ReadBits(S, DD) /\ Cardinality(ReadBits(S, DD)) = 1)
Survives(e, z) ==
  LET D == Capacity(e.R, e.C, e.L)
      code == CodeOf(D)
  IN \E y \in { e.y }, b \in { Side(e.L) }, DD \in { e.DD }, bits \in { 8 * Written(Len(e.m), D) } : \E cols \in { e.C \div b } :
     \E gone \in { TLCEval({ n \in 0..(bits - 1) : Lost(y, z, n, cols, b, DD) }) } :
       IF code = "none" THEN gone = {}
       ELSE \A w \in { n \div (8 * NBytes(code)) : n \in gone } :
              Cardinality({ n \in gone : n \div (8 * NBytes(code)) = w }) <= 2
NoiseEv ==
  /\ l <= Len(Trace) /\ Trace[l].ev = "noise"
  /\ mark # << >>
  /\ readable' = IF mark[2] # "yes" THEN mark[2]
                 ELSE IF (\E z \in { Trace[l].z } : SameShape(mark[1].y, z) /\ Survives(mark[1], z)) THEN "yes" ELSE "no"
  /\ l' = l + 1 /\ UNCHANGED << payload, mark >>

ExtractEv ==
  /\ l <= Len(Trace) /\ Trace[l].ev = "extract"
  /\ LET e == Trace[l]
     IN readable = "yes" /\ Prop \in {"C01", "C03", "C04", "C20"} => e.ok = 1 /\ e.o = payload
  /\ l' = l + 1 /\ UNCHANGED << payload, readable, mark >>

Next == EmbedEv \/ SampleEv \/ AskEv \/ RefEv \/ NoiseEv \/ ExtractEv
Spec == Init /\ [][Next]_vars
Done == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1, Len(Trace) >>)
=============================================================================
