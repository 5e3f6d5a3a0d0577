------------------------------ MODULE SinkTrace -----------------------------
(* Recorded runs of the tools whose standard output takes at least C.cap and *)
(* at most C.cap + C.slack bytes (-1: any number), and whose input           *)
(* C.src = 0: cannot be opened or read at all; 1: is fine; 2: fails before   *)
(* everything the tool needs is read; 3: fails after that.                   *)
(* C.hit = 1: one call of the system to read or to write failed, and those   *)
(* after it did not: the tool either fails or delivers everything (tried     *)
(* again).                                                                   *)
(* C.full is what the same run prints when nothing fails (itself checked by  *)
(* CatTrace, DumpTrace or ZeroTrace; empty if there is no input).            *)
EXTENDS Bits, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c,
  n,      \* bytes that can have been delivered
  st      \* "run", "ok" (everything delivered), "either", "failed"
vars == << c, n, st >>
C == Cases[c]
Init == c \in 1..Len(Cases) /\ n = 0 /\ st = "run"
Open == /\ st = "run" /\ n = 0 /\ C.src = 0
        /\ st' = "failed" /\ UNCHANGED << c, n >>
Whole == Len(C.full)
Room == IF C.cap < 0 THEN Whole ELSE MinOf(C.cap + C.slack, Whole)
\* what there is room for, then either all is done or the next write fails
Deliver == /\ st = "run" /\ C.src > 0 /\ n < Room
           /\ n' = Room /\ UNCHANGED << c, st >>
Finish == /\ st = "run" /\ C.src > 0 /\ n = Room
          /\ st' = (IF n < Whole \/ C.src = 2 THEN "failed"
                    ELSE IF C.hit = 1 \/ C.src = 3 \/ (C.cap >= 0 /\ C.cap < Whole) THEN "either" ELSE "ok")
          /\ UNCHANGED << c, n >>
\* of what was delivered C.cap bytes are seen
Seen == IF C.cap < 0 THEN n ELSE MinOf(n, C.cap)
Verdict ==
  IF C.st \in {"hang", "signal"} THEN "did not exit: " \o C.st
  ELSE IF st = "ok" /\ C.st # C.fullst THEN "other status"
  ELSE IF st = "failed" /\ C.st = "0" THEN "success, but the output was not delivered"
  ELSE IF C.st = "0" /\ C.out # SubSeq(C.full, 1, Seen) THEN "other output"
  ELSE IF st = "ok" /\ C.out # C.full THEN "other output"
  ELSE IF Len(C.out) > n \/ C.out # SubSeq(C.full, 1, Len(C.out)) THEN "printed something else" ELSE ""
End == /\ st \in {"ok", "either", "failed"}
       /\ IF Verdict = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "sink", why |-> Verdict]))
       /\ PrintT("DONE " \o C.id)
       /\ st' = "done" /\ UNCHANGED << c, n >>
Next == Open \/ Deliver \/ Finish \/ End
Spec == Init /\ [][Next]_vars
View == vars
=============================================================================
