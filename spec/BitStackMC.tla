----------------------------- MODULE BitStackMC -----------------------------
(* A packed representation, bytes and a length, against BitStack, for every  *)
(* sequence of calls. Representation must be a function of the bits (that is *)
(* what makes comparison of representations comparison of the sequences).    *)
EXTENDS BitStack

CONSTANTS Depth, Inits

VARIABLES bytes, n, steps, script, res
vars == << v, bytes, n, steps, script, res >>

SomeInits == {<< >>, << 255 >>, << 105 >>, << 0, 129 >>}
Unpack(bs) == [i \in 1..(8 * Len(bs)) |-> Bit(bs, i - 1)]

Init == \E bs \in Inits :
          /\ bytes = bs /\ n = 8 * Len(bs) /\ v = Unpack(bs) /\ steps = 0 /\ res = -1
          /\ script = ToString(bs) \o " "

SetBit(bs, k, b) ==
  LET w == k \div 8
      grown == IF w = Len(bs) THEN Append(bs, 0) ELSE bs
  IN  IF b = 0 THEN grown ELSE [grown EXCEPT ![w + 1] = @ + TwoTo(k % 8)]
Drop(bs, k) == \* bit k, the last one, goes
  IF k % 8 = 0 THEN SubSeq(bs, 1, Len(bs) - 1)
  ELSE [bs EXCEPT ![(k \div 8) + 1] = @ % TwoTo(k % 8)]

Do(o) == steps < Depth /\ steps' = steps + 1 /\ script' = script \o o \o ","

RPush(b) == /\ Do(IF b = 1 THEN "+" ELSE "-") /\ Push(b)
            /\ bytes' = SetBit(bytes, n, b) /\ n' = n + 1 /\ res' = -1
RPop == /\ Do("p") /\ Pop
        /\ IF n = 0 THEN res' = -1 /\ UNCHANGED << bytes, n >>
           ELSE /\ res' = Bit(bytes, n - 1) /\ bytes' = Drop(bytes, n - 1) /\ n' = n - 1
        /\ Assert(res' = PopResult(v), "pop")
RByte == /\ Do("b") /\ PopByte
         /\ IF n < 8 THEN res' = -1 /\ UNCHANGED << bytes, n >>
            ELSE /\ res' = Number(bytes, n - 8, 8)
                 /\ bytes' = FoldLeft(LAMBDA a, i : Drop(a, n - i), bytes, << 1, 2, 3, 4, 5, 6, 7, 8 >>)
                 /\ n' = n - 8
         /\ Assert(res' = PopByteResult(v), "pop byte")
Next == (\E b \in 0..1 : RPush(b)) \/ RPop \/ RByte
Spec == Init /\ [][Next]_vars

Same == n = Len(v) /\ Len(bytes) = (n + 7) \div 8 /\ \A i \in 1..n : Bit(bytes, i - 1) = v[i]
Canonical == \A i \in (n + 1)..(8 * Len(bytes)) : Bit(bytes, i - 1) = 0
Printed == IF steps = Depth THEN PrintT("CASE " \o script) ELSE TRUE
=============================================================================
