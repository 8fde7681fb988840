--------------------------------- MODULE Ecc ---------------------------------
(***************************************************************************)
(* Framing of a message by the error correction layer (C05, C06; used by   *)
(* the layout of a mark, C01-C04).  Bytes are integers 0..255.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* the code that belongs to a domain of D bytes
CodeOf(D) ==
  CASE D = 16 -> "TC128"
    [] D = 32 -> "TC256"
    [] D \in {64, 128} -> "TC512"
    [] D \in {256, 512} -> "TM2048"
    [] D >= 1024 -> "TM8192"
    [] OTHER -> "none"

\* bytes of a codeword and of its share of the message
NBytes(c) == CASE c = "TC128" -> 16 [] c = "TC256" -> 32 [] c = "TC512" -> 64
               [] c = "TM2048" -> 256 [] c = "TM8192" -> 1024
KBytes(c) == NBytes(c) \div 2

MaxMessage == 65535
HeaderLen == 2

\* the message with its length in front, most significant byte first
Framed(m) == << Len(m) \div 256, Len(m) % 256 >> \o m

CeilDiv(a, b) == (a + b - 1) \div b

\* number of codewords and of coded bytes for a message of n bytes
Words(n, D) == CeilDiv(n + HeaderLen, KBytes(CodeOf(D)))
CodedLen(n, D) == IF CodeOf(D) = "none" THEN n + HeaderLen
                  ELSE Words(n, D) * NBytes(CodeOf(D))

\* share number w (1..) of a framed message, padded with zeros
Share(f, w, k) == [ i \in 1..k |-> IF (w - 1) * k + i <= Len(f) THEN f[(w - 1) * k + i] ELSE 0 ]

\* codeword number w of a coded message
Codeword(c, w, n) == SubSeq(c, (w - 1) * n + 1, w * n)
=============================================================================
