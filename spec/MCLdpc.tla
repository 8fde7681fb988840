------------------------------- MODULE MCLdpc -------------------------------
(***************************************************************************)
(* The decoder on a codeword hit by one or two bit flips (C06).            *)
(* The code is linear and the decoder only looks at violated checks, so    *)
(* the state is the set of positions that are wrong, whatever the message. *)
(* FullSymmetry = FALSE starts one flip at the first bit of each cycle;    *)
(* the code and the decoder are invariant under the cycle.                 *)
(***************************************************************************)
EXTENDS Ldpc, TLC, Json, IOUtils, CSV
CONSTANTS Code, FullSymmetry, Limit
VARIABLES start, err, bad, iter, phase
vars == << start, err, bad, iter, phase >>

CheckBits == TLCEval([ ch \in 0..(NChecks(Code) - 1) |-> BitsOfCheck(Code, ch) ])
\* the checks a bit takes part in
CheckSets == TLCEval(ChecksOfBits(Code))

\* checks that see an odd number of wrong bits
Violated(e) == TLCEval({ ch \in UNION { CheckSets[v] : v \in e } :
                   Cardinality(CheckBits[ch] \cap e) % 2 = 1 })
SymDiff(a, b) == (a \ b) \cup (b \ a)

First == { v \in 0..(NBits(Code) - 1) : FullSymmetry \/ v % Cycle(Code) = 0 }
Init == /\ iter = 0 /\ phase = "received"
        /\ \E a \in First, b \in 0..(NBits(Code) - 1) : start = << a, b >> /\ err = {a, b}
        /\ bad = Violated(err)

Punct(ch) == { v \in CheckBits[ch] : v >= NBits(Code) }

\* the punctured bits are guessed from the checks that contain exactly one of them
Erasures ==
  /\ phase = "received"
  /\ phase' = "flipping"
  /\ err' = err \cup UNION { Punct(ch) : ch \in { x \in bad : Cardinality(Punct(x)) = 1 } }
  /\ bad' = Violated(err')
  /\ UNCHANGED << start, iter >>

\* one round: flip every bit with the largest number of violated checks
Flip ==
  /\ phase = "flipping" /\ bad # {} /\ iter < Limit
  /\ \E votes \in { TLCEval([ v \in UNION { CheckBits[ch] : ch \in bad } |->
                                Cardinality(CheckSets[v] \cap bad) ]) } :
     \E top \in { TLCEval(SetMax({ votes[v] : v \in DOMAIN votes })) } :
       err' = SymDiff(err, { v \in DOMAIN votes : votes[v] = top })
  /\ bad' = Violated(err')
  /\ iter' = iter + 1 /\ UNCHANGED << start, phase >>

Stop == /\ phase = "flipping" /\ (bad = {} \/ iter = Limit)
        /\ phase' = "done" /\ UNCHANGED << start, err, bad, iter >>

Next == Erasures \/ Flip \/ Stop
Spec == Init /\ [][Next]_vars

\* C06: no message bit is wrong when the decoder stops.  (Some pairs of check
\* bits of the TM codes make it oscillate until the rounds are used up.)
Corrected == phase = "done" => \A v \in err : v >= KBits(Code)
\* the TC codes repair the check bits as well
CorrectedAll == phase = "done" /\ IsTC(Code) => err = {}
\* the two tables agree
Tables == iter = 0 /\ phase = "received" =>
            \A v \in err : \A ch \in CheckSets[v] : v \in CheckBits[ch]
\* the pairs whose message bits are still wrong after HardAfter rounds
HardAfter == CHOOSE r \in 1..9 : ToString(r) = IOEnv.HARD
Dump == phase = "flipping" /\ iter = HardAfter /\ (\E v \in err : v < KBits(Code)) =>
          CSVWrite("%1$s", << ToJson([code |-> Code, a |-> start[1], b |-> start[2], rounds |-> iter]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
