----------------------------- MODULE FilterTrace ----------------------------
(* Recorded calls through the hashing filters. C.sha[i] is the SHA-512 of    *)
(* the first C.at[i] bytes of C.inp, supplied from outside.                  *)
EXTENDS Filter, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l, bad
vars == << c, l, bad, passed >>
View == << c, l, bad >>
C == Cases[c]
E == C.ev[l]
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = "" /\ passed = 0
Step ==
  /\ l \in 1..Len(C.ev) /\ bad = ""
  /\ Transfer(E.adv)
  /\ bad' = IF E.x # E.y THEN "another result than the inner one's at call " \o ToString(l)
            ELSE IF ~Possible(E.op, E.n, E.x, E.adv) THEN "a count that cannot be, at call " \o ToString(l)
            ELSE IF C.dir = "r" /\ (E.same # 1 \/ (E.y > 0 /\ E.b # SubSeq(C.inp, passed + 1, passed + E.y)))
            THEN "other bytes at call " \o ToString(l) ELSE ""
  /\ l' = l + 1 /\ UNCHANGED c
Verdict ==
  IF bad # "" THEN bad
  ELSE IF C.st # "ok" THEN "failed: " \o C.st
  ELSE IF C.passed # SubSeq(C.inp, 1, passed) THEN "the inner stream saw other bytes"
  ELSE IF ~ \E i \in 1..Len(C.at) : C.at[i] = passed /\ C.hash = C.sha[i] THEN "not the hash of what passed" ELSE ""
Done == /\ l > 0 /\ (l > Len(C.ev) \/ bad # "")
        /\ IF Verdict = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "filter", why |-> Verdict]))
        /\ PrintT("DONE " \o C.id)
        /\ l' = 0 /\ UNCHANGED << c, bad, passed >>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
