----------------------------- MODULE WindowTrace ----------------------------
(* Recorded sequences of calls on a real history buffer, as steps of Window. *)
EXTENDS Window, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l, bad
vars == << cap, w, c, l, bad >>
View == << c, l, bad >>

C == Cases[c]
Ev == C.ev[l]

Init == /\ c \in 1..Len(Cases) /\ WInit(Cases[c].cap) /\ l = 1 /\ bad = ""

Tell(why) == bad' = IF bad # "" \/ why = "" THEN bad ELSE why \o " at call " \o ToString(l)

Write == /\ Ev.o \in {"p", "x", "X"}
         /\ Extend(Ev.r)
         /\ Tell(IF Ev.st = "ok" THEN "" ELSE "write failed")

DoCopy == /\ Ev.o = "c"
          /\ Copy(Ev.d, Ev.n)
          /\ Tell(IF CanCopy(Ev.d)
                  THEN IF Ev.st # "ok" THEN "copy refused"
                       ELSE IF Ev.r # SubSeq(w', Len(w) + 1, Len(w')) THEN "copied other bytes" ELSE ""
                  ELSE IF Ev.st # "err" THEN "bad distance accepted"
                       ELSE IF Ev.r # << >> THEN "bad distance wrote bytes" ELSE "")

Look == /\ Ev.o \in {"g", "v", "l", "k"}
        /\ UNCHANGED << cap, w >>
        /\ Tell(IF Ev.st # "ok" THEN "query failed"
                ELSE IF Ev.o = "g" THEN (IF CanCopy(Ev.d) /\ Ev.r # << AtDist(Ev.d) >> THEN "wrong byte at a distance" ELSE "")
                ELSE IF Ev.o = "v" THEN (IF Ev.r # Contents THEN "wrong contents" ELSE "")
                ELSE IF Ev.o = "l" THEN (IF Ev.n # Shown THEN "wrong length" ELSE "")
                ELSE IF Ev.n # cap THEN "wrong capacity" ELSE "")

Step == /\ l \in 1..Len(C.ev) /\ bad = "" /\ (Write \/ DoCopy \/ Look) /\ l' = l + 1 /\ UNCHANGED c

Done == /\ l > 0 /\ (l > Len(C.ev) \/ bad # "")
        /\ IF bad = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "window", why |-> bad]))
        /\ PrintT("DONE " \o C.id)
        /\ l' = 0 /\ UNCHANGED << cap, w, c, bad >>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
