----------------------------- MODULE HeaderTrace ----------------------------
(* Recorded header reads against GzipHeader.                                 *)
EXTENDS GzipHeader, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE c
vars == << c, hphase, hat >>
C == Cases[c]
Avail == IF C.rfail >= 0 THEN MinOf(C.rfail, Len(C.inp)) ELSE Len(C.inp)
Init == c \in 1..Len(Cases) /\ HInit
Verdict ==
  IF hphase = "body"
  THEN IF C.st # "ok" THEN "valid header refused: " \o C.st
       ELSE IF C.hdr # SubSeq(C.inp, 1, hat) THEN "returned other bytes"
       ELSE IF C.used # hat THEN "took another number of bytes" ELSE ""
  ELSE IF C.st # "err" THEN "invalid header not refused: " \o C.st ELSE ""
End == /\ hphase \in {"body", "bad"}
       /\ IF Verdict = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "header", why |-> Verdict]))
       /\ PrintT("DONE " \o C.id)
       /\ hphase' = "done" /\ UNCHANGED << c, hat >>
Next == (HNext(C.inp, Avail) /\ UNCHANGED c) \/ End
Spec == Init /\ [][Next]_vars
View == << c, hphase, hat >>
=============================================================================
