----------------------------- MODULE BetterTrace ----------------------------
(* Recorded searches with a match in hand, and the lazy look-ahead built on  *)
(* them, against Predict.                                                    *)
EXTENDS Predict, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, i, bad
vars == << c, i, bad >>
View == << c, i >>
C == Cases[c]
PS == Presets[C.cfg]

Init == c \in 1..Len(Cases) /\ i = 0 /\ bad = ""
Check == /\ i = 0 /\ Assert(IndexOk(C), "index witness") /\ i' = 1 /\ UNCHANGED << c, bad >>

Answer(s, q) ==
  IF q.lit # Lit(C, q.p) THEN "wrong literal"
  ELSE IF q.r # Better(C, s.i, q.p, PS, q.run) THEN "with " \o ToString(q.run) \o " in hand, not what the limits say" ELSE ""
Verdict(s) ==
  LET wrong == SelectSeq([k \in 1..Len(s.q) |-> Answer(s, s.q[k])], LAMBDA x : x # "")
  IN  IF s.p # C.st[s.i + 1] THEN "wrong position"
      ELSE IF wrong # << >> THEN wrong[1]
      ELSE IF s.g # LazyGuess(C, s.i, s.p, PS) THEN "not the lazy look-ahead" ELSE ""
Step == /\ i \in 1..Len(C.steps)
        /\ bad' = IF bad # "" THEN bad
                  ELSE LET v == Verdict(C.steps[i]) IN IF v = "" THEN "" ELSE v \o " at step " \o ToString(i)
        /\ i' = i + 1 /\ UNCHANGED c
Done == /\ i > Len(C.steps)
        /\ \A v \in {IF C.st0 # "ok" THEN "searching failed: " \o C.st0 ELSE bad} :
             IF v = "" THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "better", why |-> v]))
        /\ PrintT("DONE " \o C.id)
        /\ i' = -1 /\ UNCHANGED << c, bad >>
Next == Check \/ Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
