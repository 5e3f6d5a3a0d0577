-------------------------------- MODULE Bits --------------------------------
(* Bits of byte sequences, least significant bit of each byte first, and     *)
(* small integer helpers. Byte sequences are 1-based TLA+ sequences; byte    *)
(* and bit *positions* are 0-based, as in the code.                          *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824 >>
TwoTo(n) == Pow2[n + 1]

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b

\* The bit at 0-based bit position i of the bytes `in`.
Bit(in, i) == (in[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2

ByteAt(in, i) == IF i < Len(in) THEN in[i + 1] ELSE 0

\* The n-bit number (n <= 16) at bit position bp, least significant bit first.
\* (TLC evaluates non-recursive definitions much faster; the recursive ones
\* below say what is meant, and the models check that they agree.)
Number(in, bp, n) ==
  LET k == bp \div 8
      w == ByteAt(in, k) + 256 * ByteAt(in, k + 1) + 65536 * ByteAt(in, k + 2)
  IN  (w \div Pow2[(bp % 8) + 1]) % Pow2[n + 1]

RECURSIVE NumberDef(_, _, _)
NumberDef(in, bp, n) == IF n = 0 THEN 0 ELSE Bit(in, bp) + 2 * NumberDef(in, bp + 1, n - 1)

\* The 15-bit number at bit position bp, first bit most significant; bits that
\* do not exist count as 0.
Rev8 == << 0, 128, 64, 192, 32, 160, 96, 224, 16, 144, 80, 208, 48, 176, 112, 240,
           8, 136, 72, 200, 40, 168, 104, 232, 24, 152, 88, 216, 56, 184, 120, 248,
           4, 132, 68, 196, 36, 164, 100, 228, 20, 148, 84, 212, 52, 180, 116, 244,
           12, 140, 76, 204, 44, 172, 108, 236, 28, 156, 92, 220, 60, 188, 124, 252,
           2, 130, 66, 194, 34, 162, 98, 226, 18, 146, 82, 210, 50, 178, 114, 242,
           10, 138, 74, 202, 42, 170, 106, 234, 26, 154, 90, 218, 58, 186, 122, 250,
           6, 134, 70, 198, 38, 166, 102, 230, 22, 150, 86, 214, 54, 182, 118, 246,
           14, 142, 78, 206, 46, 174, 110, 238, 30, 158, 94, 222, 62, 190, 126, 254,
           1, 129, 65, 193, 33, 161, 97, 225, 17, 145, 81, 209, 49, 177, 113, 241,
           9, 137, 73, 201, 41, 169, 105, 233, 25, 153, 89, 217, 57, 185, 121, 249,
           5, 133, 69, 197, 37, 165, 101, 229, 21, 149, 85, 213, 53, 181, 117, 245,
           13, 141, 77, 205, 45, 173, 109, 237, 29, 157, 93, 221, 61, 189, 125, 253,
           3, 131, 67, 195, 35, 163, 99, 227, 19, 147, 83, 211, 51, 179, 115, 243,
           11, 139, 75, 203, 43, 171, 107, 235, 27, 155, 91, 219, 59, 187, 123, 251,
           7, 135, 71, 199, 39, 167, 103, 231, 23, 151, 87, 215, 55, 183, 119, 247,
           15, 143, 79, 207, 47, 175, 111, 239, 31, 159, 95, 223, 63, 191, 127, 255 >>
Rev(in, i) == IF i < Len(in) THEN Rev8[in[i + 1] + 1] ELSE 0
Window15(in, bp) ==
  LET k == bp \div 8
      o == bp % 8
      w == 65536 * Rev(in, k) + 256 * Rev(in, k + 1) + Rev(in, k + 2)
  IN  (w % Pow2[25 - o]) \div Pow2[10 - o]

\* The number of bits needed to fill the byte that bit position bp is in.
PadLen(bp) == (8 - (bp % 8)) % 8

\* The n bits of number v, least significant first, as a 0/1 sequence.
BitsOf(v, n) == [i \in 1..n |-> (v \div TwoTo(i - 1)) % 2]

\* The bits from..to-1 of `in` as a 0/1 sequence.
BitRange(in, from, to) == [i \in 1..(to - from) |-> Bit(in, from + i - 1)]

\* Exclusive or of two numbers below 65536 (TLC: overridden pieces of Bitwise are used by callers
\* that need speed; this one is the definition).
RECURSIVE XorDef(_, _)
XorDef(a, b) ==
  IF a = 0 THEN b
  ELSE IF b = 0 THEN a
  ELSE ((a + b) % 2) + 2 * XorDef(a \div 2, b \div 2)
=============================================================================
