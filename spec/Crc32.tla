------------------------------- MODULE Crc32 --------------------------------
(* CRC-32 of RFC 1952. TLC's numbers have 31 bits and a sign, so a register  *)
(* is a pair of 16-bit halves << high, low >>.                               *)
EXTENDS Bits, Bitwise, SequencesExt, TLC
Xor2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Shift1(a) == << a[1] \div 2, (a[2] \div 2) + 32768 * (a[1] % 2) >>
Poly == << 60856, 33568 >>      \* EDB88320
Round(a) == IF a[2] % 2 = 1 THEN Xor2(Shift1(a), Poly) ELSE Shift1(a)
CrcTable == TLCEval([b \in 1..256 |-> FoldLeft(LAMBDA a, i : Round(a), << 0, b - 1 >>, << 1, 2, 3, 4, 5, 6, 7, 8 >>)])
CrcStep(a, b) == Xor2(<< a[1] \div 256, (a[2] \div 256) + 256 * (a[1] % 256) >>,
                      CrcTable[((a[2] % 256) ^^ b) + 1])
Crc(bytes) == Xor2(FoldLeft(CrcStep, << 65535, 65535 >>, bytes), << 65535, 65535 >>)
\* four bytes, lowest first
Le(a) == << a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256 >>
=============================================================================
