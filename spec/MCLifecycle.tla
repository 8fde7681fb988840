---------------------------- MODULE MCLifecycle -----------------------------
(***************************************************************************)
(* Two channels are marked, stored, marked again, tampered with; marks are *)
(* moved between them, altered, signed by others, removed.  Every history  *)
(* of at most Steps actions; the histories are written out and replayed.   *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, IOUtils, CSV
CONSTANTS H, Nf, Steps, Start, Wild
VARIABLES feat, mark, orig, honest, hist
vars == << feat, mark, orig, honest, hist >>
Chans == {1, 2}
Feats == [1..Nf -> Start]
Drifts == [1..Nf -> (0 - 2 * H)..(2 * H)]
Wilds == [1..Nf -> Wild] \cup [1..Nf -> { -w : w \in Wild }]
Add(f, d) == [ i \in 1..Nf |-> f[i] + d[i] ]

Init == /\ feat \in [Chans -> Feats] /\ mark = [c \in Chans |-> NoMark]
        /\ orig = [c \in Chans |-> << >>] /\ honest = [c \in Chans |-> FALSE] /\ hist = << >>
Say(a) == Len(hist) < Steps /\ hist' = Append(hist, a)

Mark(c) == /\ Say(<< "mark", c >>)
           /\ mark' = [mark EXCEPT ![c] = MarkOf(feat[c], H)]
           /\ orig' = [orig EXCEPT ![c] = feat[c]]
           /\ \E d \in Drifts : feat' = [feat EXCEPT ![c] = Add(@, d)]
           /\ honest' = [honest EXCEPT ![c] = TRUE]
Store(c) == Say(<< "store", c >>) /\ UNCHANGED << feat, mark, orig, honest >>
Tamper(c) == /\ Say(<< "tamper", c >>)
             /\ \E d \in Wilds : feat' = [feat EXCEPT ![c] = Add(@, d)]
             /\ honest' = [honest EXCEPT ![c] = FALSE]
             /\ UNCHANGED << mark, orig >>
Move(c) == /\ Say(<< "move", c >>)
           /\ mark[c] # NoMark
           /\ mark' = [mark EXCEPT ![3 - c] = mark[c]]
           /\ orig' = [orig EXCEPT ![3 - c] = orig[c]]
           /\ honest' = [honest EXCEPT ![3 - c] = FALSE]
           /\ UNCHANGED feat
Alter(c) == /\ Say(<< "alter", c >>) /\ mark[c] # NoMark
            /\ mark' = [mark EXCEPT ![c].whole = FALSE]
            /\ honest' = [honest EXCEPT ![c] = FALSE] /\ UNCHANGED << feat, orig >>
Rekey(c) == /\ Say(<< "rekey", c >>)
            /\ mark' = [mark EXCEPT ![c] = [MarkOf(feat[c], H) EXCEPT !.key = "other"]]
            /\ orig' = [orig EXCEPT ![c] = feat[c]]
            /\ honest' = [honest EXCEPT ![c] = FALSE] /\ UNCHANGED feat
Strip(c) == /\ Say(<< "strip", c >>) /\ mark[c] # NoMark
            /\ mark' = [mark EXCEPT ![c] = NoMark]
            /\ honest' = [honest EXCEPT ![c] = FALSE] /\ UNCHANGED << feat, orig >>
Next == \E c \in Chans : Mark(c) \/ Store(c) \/ Tamper(c) \/ Move(c) \/ Alter(c) \/ Rekey(c) \/ Strip(c)
Spec == Init /\ [][Next]_vars

\* C11
Fresh == \A c \in Chans : honest[c] => Accept(feat[c], mark[c], H)
\* C12
Changed == \A c \in Chans : mark[c] # NoMark /\ Beyond(feat[c], orig[c], 3 * H) => ~Accept(feat[c], mark[c], H)
Forged == \A c \in Chans : mark[c].key # "built-in" \/ ~mark[c].whole => ~Accept(feat[c], mark[c], H)
Dump == Len(hist) = Steps /\ mark # [c \in Chans |-> NoMark] /\ \E i \in 1..Steps : hist[i][1] = "mark" =>
          CSVWrite("%1$s", << ToJson([hist |-> hist]) >>, IOEnv.OUT)
\* one initial content is enough to enumerate the histories
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)

\* ---- the plain set of histories, without features
HInit == /\ feat = << >> /\ mark = [c \in Chans |-> 0] /\ orig = << >> /\ honest = << >> /\ hist = << >>
HAct(a, c) == /\ Say(<< a, c >>)
              /\ CASE a = "mark" -> mark' = [mark EXCEPT ![c] = 1]
                   [] a = "rekey" -> mark' = [mark EXCEPT ![c] = 1]
                   [] a = "move" -> mark[c] = 1 /\ mark' = [mark EXCEPT ![3 - c] = 1]
                   [] a = "alter" -> mark[c] = 1 /\ UNCHANGED mark
                   [] a = "strip" -> mark[c] = 1 /\ mark' = [mark EXCEPT ![c] = 0]
                   [] OTHER -> UNCHANGED mark
              /\ UNCHANGED << feat, orig, honest >>
HNext == \E c \in Chans : \E a \in {"mark", "rekey", "move", "alter", "strip", "store", "tamper"} : HAct(a, c)
HSpec == HInit /\ [][HNext]_vars
\* the first act is on the first channel, and something is marked
HDump == /\ (hist # << >> => hist[1][2] = 1)
         /\ (Len(hist) = Steps /\ \E i \in 1..Steps : hist[i][1] \in {"mark", "rekey"})
              => CSVWrite("%1$s", << ToJson([hist |-> hist]) >>, IOEnv.OUT)

\* ---- marks with given offsets between the features and what was signed
CONSTANT Offsets
Around == (-8)..8
OInit == /\ feat \in [1..2 -> Start] /\ orig \in [1..2 -> Offsets] /\ mark = 0 /\ honest = 0 /\ hist = << >>
ONext == UNCHANGED vars
OSpec == OInit /\ [][ONext]_vars
OMark == MarkOf(orig, H)
\* a mark made for f + offset is accepted for f exactly when every feature is restored
ODecided == LET m == MarkOf([ i \in 1..2 |-> feat[i] + orig[i] ], H)
            IN /\ ((\A i \in 1..2 : Abs(orig[i]) <= 2 * H) => Accept(feat, m, H))
               /\ ((\E i \in 1..2 : Abs(orig[i]) >= 3 * H) => ~Accept(feat, m, H))
ODump == CSVWrite("%1$s", << ToJson([off |-> orig]) >>, IOEnv.OUT)
=============================================================================
