------------------------------- MODULE MCBytes -------------------------------
(* Round trips of the conversions on border values; writes them out for replay. *)
EXTENDS Bytes, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Limbs, MaxLen, Width, Chars, MaxText
VARIABLES ints, phase
vars == << ints, phase >>

\* grows a list of integers of Width limbs, limb by limb
Init == ints = << >> /\ phase = "grow"
Grow == /\ phase = "grow"
        /\ \/ /\ Len(ints) < MaxLen
              /\ \E x \in Limbs : ints' = Append(ints, << x >>)
           \/ /\ ints # << >> /\ Len(ints[Len(ints)]) < Width
              /\ \E x \in Limbs : ints' = [ints EXCEPT ![Len(ints)] = Append(@, x)]
        /\ phase' = phase
Complete == \A i \in 1..Len(ints) : Len(ints[i]) = Width
\* only complete last integers may be followed by another
Next == Grow /\ (Len(ints') > Len(ints) => Complete)
Spec == Init /\ [][Next]_vars

RoundTrip == Complete => FromBytes(ToBytes(ints, Width), Width) = ints /\ Whole(ToBytes(ints, Width), Width)
InRange == Complete => \A i \in 1..Len(ToBytes(ints, Width)) : ToBytes(ints, Width)[i] \in 0..255
HexTrip == Complete => LET b == ToBytes(ints, Width) IN IsHex(ToHex(b)) /\ FromHex(ToHex(b)) = b
\* dropping or adding a byte never leaves a whole number of integers
NeverWhole == Complete /\ ints # << >> => ~Whole(Tail(ToBytes(ints, Width)), Width)

\* texts over an alphabet of characters (sequences of UTF-8 bytes): all short ones, and longer ones of digits
\* with one or two characters replaced
Alphabet == { <<48>>, <<57>>, <<97>>, <<102>>, <<65>>, <<70>>, <<103>>, <<120>>, <<88>>, <<43>>, <<45>>, <<32>>, <<95>>, <<35>>,
              <<10>>, <<0>>, <<47>>, <<58>>, <<64>>, <<96>>, <<195, 169>>, <<217, 163>>, <<239, 188, 144>> }
Usual == { <<48>>, <<102>>, <<65>>, <<103>>, <<120>>, <<43>>, <<45>>, <<32>>, <<95>>, <<195, 169>> }
CharSet == IF Chars = "all" THEN Alphabet ELSE Usual
Digits(n) == [ i \in 1..n |-> << CASE i % 4 = 0 -> 48 [] i % 4 = 1 -> 55 [] i % 4 = 2 -> 101 [] OTHER -> 66 >> ]
TInit == /\ phase = "text"
         /\ \/ ints = << >>
            \/ \E n \in {6, 7, 8, 64, 65, 128} : \E i \in 1..n, c \in Alphabet, d \in Alphabet \cup {<<48>>} :
                 /\ (n > 8 => i \in {1, 2, 3, 31, 32, 33, n - 1, n} \/ d = <<48>>)
                 /\ ints = [ Digits(n) EXCEPT ![i] = c, ![IF i = n THEN 1 ELSE i + 1] = d ]
TGrow == /\ phase = "text" /\ Len(ints) < MaxText
         /\ \E c \in CharSet : ints' = Append(ints, c)
         /\ phase' = phase
TSpec == TInit /\ [][TGrow]_vars
RECURSIVE Joined(_)
Joined(t) == IF t = << >> THEN << >> ELSE Head(t) \o Joined(Tail(t))
\* what is read stands for the text itself, up to the case of its letters
Lower(t) == [ i \in 1..Len(t) |-> IF t[i] \in 65..70 THEN t[i] + 32 ELSE t[i] ]
TextTrip == LET t == Joined(ints) IN IsHex(t) => ToHex(FromHex(t)) = Lower(t)
TDump == CSVWrite("%1$s", << ToJson([t |-> Joined(ints)]) >>, IOEnv.OUT)
Dump == Complete => CSVWrite("%1$s", << ToJson([w |-> Width, ints |-> ints]) >>, IOEnv.OUT)
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
=============================================================================
