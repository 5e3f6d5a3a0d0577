--------------------------- MODULE CandidatesTrace --------------------------
(* Recorded answers of the index of back-references against Refs.            *)
EXTENDS Refs, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, i, bad
vars == << c, i, bad >>
C == Cases[c]

Init == c \in 1..Len(Cases) /\ i = 0 /\ bad = ""

Hidden(q) == \E j \in 1..Len(C.obs) : C.obs[j][1] < q /\ q < C.obs[j][1] + C.obs[j][2]

Verdict(a) ==
  LET p == a.p IN
  IF a.st # "ok" THEN "asking failed: " \o a.st
  ELSE IF ~ HasThree(C.win, p) THEN (IF a.some # 0 THEN "some at the end of the data" ELSE "")
  ELSE IF a.some # 1 THEN "none though three bytes remain"
  ELSE IF p = 0 THEN (IF a.r # << >> THEN "candidates at the very start" ELSE "")
  ELSE LET all == Candidates(C.win, Chain(C, p), p, C.lim, Hidden)
       IN  IF a.r # SubSeq(all, 1, MinOf(C.max, Len(all))) THEN "other candidates" ELSE ""

Check == /\ i = 0 /\ Assert(IndexOk(C), "index witness") /\ i' = 1 /\ UNCHANGED << c, bad >>
Step == /\ i \in 1..Len(C.q)
        /\ bad' = IF bad # "" THEN bad
                  ELSE LET v == Verdict(C.q[i]) IN IF v = "" THEN "" ELSE v \o " at " \o ToString(C.q[i].p)
        /\ i' = i + 1 /\ UNCHANGED c
Done == /\ i > Len(C.q)
        /\ IF bad = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "candidates", why |-> bad]))
        /\ PrintT("DONE " \o C.id)
        /\ i' = -1 /\ UNCHANGED << c, bad >>
Next == Check \/ Step \/ Done
Spec == Init /\ [][Next]_vars
View == << c, i >>
=============================================================================
