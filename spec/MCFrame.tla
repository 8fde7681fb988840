------------------------------- MODULE MCFrame -------------------------------
(***************************************************************************)
(* The framing protocol over an ideal code that repairs two flips a word:  *)
(* sender frames, pads and splits; the domain appends filler; the channel  *)
(* flips bits; the receiver repairs word by word, joins and cuts.          *)
(* Bytes are base B digits here and words are K bytes, so that everything  *)
(* can be enumerated: every message, filler and flip pattern.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, K, MaxLen, MaxFill, MaxFlips
VARIABLES msg, words, flips, tail, phase, out
vars == << msg, words, flips, tail, phase, out >>

Byte == 0..(B - 1)
Msgs == UNION { [1..n -> Byte] : n \in 0..MaxLen }
Framed(m) == << Len(m) \div B, Len(m) % B >> \o m
NW(m) == (Len(m) + 2 + K - 1) \div K
Share(m, w) == [ i \in 1..K |-> IF (w - 1) * K + i <= Len(m) + 2 THEN Framed(m)[(w - 1) * K + i] ELSE 0 ]

Init == /\ msg \in Msgs /\ words = << >> /\ flips = << >> /\ tail = 0 /\ phase = "message" /\ out = << >>

Send == /\ phase = "message" /\ phase' = "coded"
        /\ words' = [ w \in 1..NW(msg) |-> Share(msg, w) ]
        /\ flips' = [ w \in 1..NW(msg) |-> 0 ]
        /\ UNCHANGED << msg, tail, out >>

\* a whole word of filler, or a partial one at the very end
FillWord == /\ phase = "coded" /\ tail = 0 /\ Len(words) < NW(msg) + MaxFill
            /\ \E f \in [1..K -> Byte] : words' = Append(words, f)
            /\ flips' = Append(flips, 0)
            /\ UNCHANGED << msg, tail, phase, out >>
FillPart == /\ phase = "coded" /\ tail = 0
            /\ tail' \in 1..(2*K - 1)
            /\ UNCHANGED << msg, words, flips, phase, out >>
Noise == /\ phase = "coded"
         /\ \E w \in 1..NW(msg) : flips[w] < MaxFlips /\ flips' = [flips EXCEPT ![w] = @ + 1]
         /\ UNCHANGED << msg, words, tail, phase, out >>

\* an ideal repair: up to two flips leave the word, more may give anything else
Repaired(w) == IF flips[w] <= 2 THEN words[w] ELSE [words[w] EXCEPT ![1] = (@ + 1) % B]
Joined == [ i \in 1..(K * Len(words)) |-> Repaired(((i - 1) \div K) + 1)[((i - 1) % K) + 1] ]
Receive == /\ phase = "coded"
           /\ \E j \in {Joined} : \E n \in { (B * j[1]) + j[2] } :
                IF n + 2 <= Len(j) THEN phase' = "received" /\ out' = SubSeq(j, 3, n + 2)
                ELSE phase' = "refused" /\ out' = out
           /\ UNCHANGED << msg, words, flips, tail >>

Next == Send \/ FillWord \/ FillPart \/ Noise \/ Receive
Spec == Init /\ [][Next]_vars

Lossless == phase \in {"received", "refused"} /\ (\A w \in 1..NW(msg) : flips[w] <= 2)
              => phase = "received" /\ out = msg
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
