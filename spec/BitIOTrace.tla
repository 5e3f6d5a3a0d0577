----------------------------- MODULE BitIOTrace -----------------------------
(* Recorded writing of bits, and reading back, against BitIO.                *)
EXTENDS BitIO, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l, bad
vars == << c, l, bad, bits >>
View == << c, l, bad >>
C == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ bits = << >>
Step ==
  /\ l \in 1..Len(C.ops)
  /\ \E b \in {TLCEval(Wrote(bits, C.ops[l]))} : bits' = b
  /\ bad' = IF bad # "" \/ C.wst # "ok" THEN bad
            ELSE IF l > Len(C.got) THEN "not read back"
            ELSE IF C.got[l] # Reads(C.ops[l]) THEN "read back differently at " \o ToString(l) ELSE ""
  /\ l' = l + 1 /\ UNCHANGED c
Full == Packed(Pad(bits))
Faulty == C.wfail >= 0 /\ C.wfail < Len(Full)
WriteVerdict ==
  IF Faulty
  THEN IF C.wst # "err" THEN "sink fault not reported"
       ELSE IF C.out # SubSeq(Full, 1, C.wfail) THEN "not a prefix before the sink fault" ELSE ""
  ELSE IF C.wst # "ok" THEN "writing failed: " \o C.wst
       ELSE IF C.out # Full THEN "wrong bytes" ELSE ""
ReadVerdict ==
  IF Faulty \/ WriteVerdict # "" THEN ""
  ELSE IF bad # "" THEN bad
  ELSE IF C.rst # "ok" THEN "reading failed: " \o C.rst
  ELSE IF C.used # Len(Full) THEN "took another number of bytes" ELSE ""
Report(why) == IF why = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "bitio", why |-> why]))
Done == /\ l > Len(C.ops)
        /\ Report(IF WriteVerdict # "" THEN WriteVerdict ELSE ReadVerdict)
        /\ PrintT("DONE " \o C.id)
        /\ l' = 0 /\ UNCHANGED << c, bad, bits >>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
