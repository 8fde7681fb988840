-------------------------------- MODULE Ldpc --------------------------------
(***************************************************************************)
(* The five CCSDS codes the library picks from, as parity check graphs, and*)
(* the bit-flipping decoder it runs on them.  Positions are bit numbers of *)
(* the codeword, most significant bit of each byte first; the punctured    *)
(* bits of the TM codes follow the transmitted ones.                       *)
(*                                                                         *)
(* TC codes: 4 x 8 blocks, each a sum of M x M identities shifted right.   *)
(* TM codes: 3 x 5 blocks, each a sum of identities and permutations pi_k. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Codes == {"TC128", "TC256", "TC512", "TM2048", "TM8192"}
NBits(c) == CASE c = "TC128" -> 128 [] c = "TC256" -> 256 [] c = "TC512" -> 512
              [] c = "TM2048" -> 2048 [] c = "TM8192" -> 8192
KBits(c) == NBits(c) \div 2
IsTC(c) == c \in {"TC128", "TC256", "TC512"}
\* size of a block
BlockSize(c) == IF IsTC(c) THEN NBits(c) \div 8 ELSE NBits(c) \div 4
Punctured(c) == IF IsTC(c) THEN 0 ELSE BlockSize(c)
Rows(c) == IF IsTC(c) THEN 4 ELSE 3
\* size of the cyclic group that maps the code to itself
Cycle(c) == IF IsTC(c) THEN BlockSize(c) ELSE BlockSize(c) \div 4

\* right shifts of the identities in each block
Shifts(c) ==
  CASE c = "TC128" ->
    << << {0,7}, {2}, {14}, {6}, {}, {0}, {13}, {0} >>,
       << {6}, {0,15}, {0}, {1}, {0}, {}, {0}, {7} >>,
       << {4}, {1}, {0,15}, {14}, {11}, {0}, {}, {3} >>,
       << {0}, {1}, {9}, {0,13}, {14}, {1}, {0}, {} >> >>
  [] c = "TC256" ->
    << << {0,31}, {15}, {25}, {0}, {}, {20}, {12}, {0} >>,
       << {28}, {0,30}, {29}, {24}, {0}, {}, {1}, {20} >>,
       << {8}, {0}, {0,28}, {1}, {29}, {0}, {}, {21} >>,
       << {18}, {30}, {0}, {0,30}, {25}, {26}, {0}, {} >> >>
  [] c = "TC512" ->
    << << {0,63}, {30}, {50}, {25}, {}, {43}, {62}, {0} >>,
       << {56}, {0,61}, {50}, {23}, {0}, {}, {37}, {26} >>,
       << {16}, {0}, {0,55}, {27}, {56}, {0}, {}, {43} >>,
       << {35}, {56}, {62}, {0,11}, {58}, {3}, {0}, {} >> >>

Theta == << 3, 0, 1, 2, 2, 3, 0, 1 >>
\* phi_k for k = 1..8, one row per quarter of the block
Phi(c) ==
  CASE c = "TM2048" ->
    << << 16, 103, 105, 0, 50, 29, 115, 30 >>, << 0, 53, 74, 45, 47, 0, 59, 102 >>,
       << 0, 8, 119, 89, 31, 122, 1, 69 >>, << 0, 35, 97, 112, 64, 93, 99, 94 >> >>
  [] c = "TM8192" ->
    << << 108, 126, 238, 481, 96, 28, 59, 225 >>, << 0, 375, 436, 350, 260, 84, 318, 382 >>,
       << 0, 219, 16, 263, 415, 403, 184, 279 >>, << 0, 312, 503, 388, 48, 7, 185, 328 >> >>

\* permutation pi_k of 0..M-1; k = 0 stands for the identity
Pi(c, k, i) ==
  IF k = 0 THEN i
  ELSE LET q == BlockSize(c) \div 4
           j == i \div q
       IN  (q * ((Theta[k] + j) % 4)) + ((Phi(c)[j + 1][k] + i) % q)

\* permutations in each block of the TM codes
Perms == << << {}, {}, {0}, {}, {0, 1} >>,
            << {0}, {0}, {}, {0}, {2, 3, 4} >>,
            << {0}, {5, 6}, {}, {7, 8}, {0} >> >>

\* the bits taking part in parity check number ch (0 .. Rows*M - 1)
BitsOfCheck(c, ch) ==
  LET M == BlockSize(c)
      r == (ch \div M) + 1
      i == ch % M
  IN IF IsTC(c)
     THEN UNION { { (b - 1) * M + ((i + s) % M) : s \in Shifts(c)[r][b] } : b \in 1..8 }
     ELSE UNION { { (b - 1) * M + Pi(c, k, i) : k \in Perms[r][b] } : b \in 1..5 }

SetMax(S) == CHOOSE m \in S : \A x \in S : x <= m

NChecks(c) == Rows(c) * BlockSize(c)
NVars(c) == NBits(c) + Punctured(c)

\* inverse of the permutation pi_k
PiInv(c, k, j) ==
  IF k = 0 THEN j
  ELSE LET q == BlockSize(c) \div 4
           qq == ((j \div q) - Theta[k]) % 4
       IN  (q * qq) + (((j % q) - Phi(c)[qq + 1][k]) % q)

\* the checks that bit v takes part in
ChecksOfBit(c, v) ==
  LET M == BlockSize(c)
      b == (v \div M) + 1
      j == v % M
  IN IF IsTC(c)
     THEN UNION { { (r - 1) * M + ((j - s) % M) : s \in Shifts(c)[r][b] } : r \in 1..4 }
     ELSE UNION { { (r - 1) * M + PiInv(c, k, j) : k \in Perms[r][b] } : r \in 1..3 }
ChecksOfBits(c) == [ v \in 0..(NVars(c) - 1) |-> ChecksOfBit(c, v) ]

\* bit number v of a byte sequence
BitAt(bytes, v) == (bytes[(v \div 8) + 1] \div (2 ^ (7 - (v % 8)))) % 2

\* every parity check of a code without punctured bits holds
ParityHolds(c, bytes) ==
  \A ch \in 0..(NChecks(c) - 1) :
    Cardinality({ v \in BitsOfCheck(c, ch) : BitAt(bytes, v) = 1 }) % 2 = 0
=============================================================================
