-------------------------------- MODULE BitIO -------------------------------
(* Writing bits: `bits` is all that was written, padding included.           *)
EXTENDS Bits, TLC
VARIABLE bits

Pad(b) == b \o [i \in 1..PadLen(Len(b)) |-> 0]
Bytes16(n) == BitsOf(n % 256, 8) \o BitsOf(n \div 256, 8)
BytesAsBits(d) == [i \in 1..(8 * Len(d)) |-> Bit(d, i - 1)]
\* what an operation adds to the bits b
Wrote(b, op) ==
  IF op.o = "b" THEN Append(b, op.x)
  ELSE IF op.o = "v" THEN b \o BitsOf(op.x, op.n)
  ELSE IF op.o = "s" THEN b \o op.b
  ELSE IF op.o = "a" THEN Pad(b)
  ELSE Pad(b) \o Bytes16(op.n) \o Bytes16(65535 - op.n) \o BytesAsBits(op.b)
\* what reading the same layout back gives
Reads(op) == IF op.o \in {"b", "v"} THEN << op.x >>
             ELSE IF op.o = "a" THEN << >> ELSE op.b
Packed(b) == [j \in 1..(Len(b) \div 8) |-> FoldLeft(LAMBDA n, i : n + b[8 * (j - 1) + i] * TwoTo(i - 1), 0, << 1, 2, 3, 4, 5, 6, 7, 8 >>)]
=============================================================================
