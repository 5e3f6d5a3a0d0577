--------------------------- MODULE BitStackTrace ----------------------------
(* Recorded calls on a real bit vector against BitStack.                     *)
EXTENDS BitStack, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l, bad
vars == << c, l, bad, v >>
View == << c, l, bad >>
C == Cases[c]
E == C.ev[l]
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = ""
        /\ v = [i \in 1..(8 * Len(Cases[c].init)) |-> Bit(Cases[c].init, i - 1)]

Yes(b) == IF b THEN 1 ELSE 0
Say(why) == bad' = IF E.st # "ok" THEN "call failed at " \o ToString(l)
                   ELSE IF why = "" THEN "" ELSE why \o " at " \o ToString(l)
Same == UNCHANGED v
Call ==
  \/ E.o = "+" /\ Push(1) /\ Say("")
  \/ E.o = "-" /\ Push(0) /\ Say("")
  \/ E.o = "p" /\ Pop /\ Say(IF E.r # PopResult(v) THEN "pop" ELSE "")
  \/ E.o = "b" /\ PopByte /\ Say(IF E.r # PopByteResult(v) THEN "pop byte" ELSE "")
  \/ E.o = "g" /\ Same /\ Say(IF E.a < Len(v) /\ E.r # v[E.a + 1] THEN "bit at an index" ELSE "")
  \/ E.o = "l" /\ Same /\ Say(IF E.r # Len(v) \/ E.e # Yes(v = << >>) THEN "length" ELSE "")
  \/ E.o = "i" /\ Same /\ Say(IF E.b # v THEN "iteration" ELSE "")
  \/ E.o = "q" /\ Same /\ Say(IF E.r # Yes(E.b = v) \/ E.s # E.r \/ E.f # E.r THEN "comparison" ELSE "")
  \/ E.o = "r" /\ Same /\ Say("")
Step == l \in 1..Len(C.ev) /\ bad = "" /\ Call /\ l' = l + 1 /\ UNCHANGED c
Done == /\ l > 0 /\ (l > Len(C.ev) \/ bad # "")
        /\ IF bad = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "stack", why |-> bad]))
        /\ PrintT("DONE " \o C.id)
        /\ l' = 0 /\ UNCHANGED << c, bad, v >>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
