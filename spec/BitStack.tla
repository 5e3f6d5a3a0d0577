------------------------------ MODULE BitStack ------------------------------
(* A sequence of bits as a stack: `v`, a 0/1 sequence, last pushed last.     *)
EXTENDS Bits, TLC
VARIABLE v

Push(b) == v' = Append(v, b)
\* results are what the call returns; -1: nothing there
PopResult(s) == IF s = << >> THEN -1 ELSE s[Len(s)]
AfterPop(s) == IF s = << >> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
Pop == v' = AfterPop(v)
PopByteResult(s) ==
  IF Len(s) < 8 THEN -1
  ELSE FoldLeft(LAMBDA n, i : n + s[Len(s) - 8 + i] * TwoTo(i - 1), 0, << 1, 2, 3, 4, 5, 6, 7, 8 >>)
AfterPopByte(s) == IF Len(s) < 8 THEN s ELSE SubSeq(s, 1, Len(s) - 8)
PopByte == v' = AfterPopByte(v)
=============================================================================
