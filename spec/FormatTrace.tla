----------------------------- MODULE FormatTrace ----------------------------
(* Recorded writing and reading of metadata against TraceFormat.             *)
EXTENDS TraceFormat, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, r
vars == << c, r >>
View == << c, r.at, r.st >>
C == Cases[c]
Init == c \in 1..Len(Cases) /\ r = Start

Bytes == IF C.op = "tfw" THEN C.ser ELSE C.inp
Fault == IF C.op = "tfw" THEN -1 ELSE C.rfail

Batch == TLCEval([i \in 1..64 |-> i])
Read == /\ r.st = "run"
        /\ \E q \in {FoldLeft(LAMBDA a, i : IF a.st = "run" THEN Record(Bytes, Fault, a) ELSE a, r, Batch)} : r' = q
        /\ UNCHANGED c

Report(kind, why) == IF why = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> kind, why |-> why]))

End ==
  /\ r.st \in {"ok", "err"}
  /\ IF C.op = "tfw"
     THEN Report("write", IF C.st # "ok" THEN "writing or reading back failed: " \o C.st
                          ELSE IF C.ser # Written(C.tr) THEN "other bytes"
                          ELSE IF C.rb # C.tr \/ C.nrb # Count(C.tr) THEN "read back differently"
                          ELSE IF r.st # "ok" \/ r.tr # C.tr THEN "not readable" ELSE "")
     ELSE Report("read", IF C.st # r.st THEN "should be " \o r.st \o ", is " \o C.st
                         ELSE IF r.st = "ok" /\ C.tr # r.tr THEN "other entries" ELSE "")
  /\ PrintT("DONE " \o C.id)
  /\ r' = [r EXCEPT !.st = "done"] /\ UNCHANGED c
Next == Read \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
