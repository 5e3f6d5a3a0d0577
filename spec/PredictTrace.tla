---------------------------- MODULE PredictTrace ----------------------------
(* Recorded tracing and restoring, as behaviours of TraceMachine driven by   *)
(* the recorded predictions; and those predictions against Predict.          *)
EXTENDS Predict, TraceMachine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, i,  \* case; codes processed
          pos, s, \* position; the prediction being followed
          tbad, vbad, pbad, \* first disagreement: trace, validity of predictions, rule
          phase
vars == << c, i, pos, s, tbad, vbad, pbad, phase >>
View == << c, i, tbad, vbad, pbad, phase >>

C == Cases[c]
PS == Presets[C.cfg]
N == Len(C.codes)

\* the driver's account of where codes start and which code covers a position
CoverOk ==
  /\ Len(C.st) = N /\ Len(C.cv) = Len(C.win) - C.np
  /\ \A j \in 1..N : C.st[j] = IF j = 1 THEN C.np ELSE C.st[j - 1] + Emitted(C.codes[j - 1])
  /\ \A q \in 1..Len(C.cv) : /\ C.cv[q] \in 1..N
                             /\ C.st[C.cv[q]] < q + C.np
                             /\ q + C.np <= C.st[C.cv[q]] + Emitted(C.codes[C.cv[q]])

Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ pos = Cases[c].np /\ s = [guess |-> << >>, k |-> 0]
        /\ tbad = "" /\ vbad = "" /\ pbad = "" /\ phase = "index"

Check == /\ phase = "index"
         /\ Assert(CoverOk, "cover witness")
         /\ Assert(C.rule = 0 \/ IndexOk(C), "index witness")
         /\ phase' = "codes"
         /\ UNCHANGED << c, i, pos, s, tbad, vbad, pbad >>

Say(old, why, at) == IF old # "" \/ why = "" THEN old ELSE why \o " at code " \o ToString(at)

\* One code. m = [i, pos, s, t, v, p].
One(m) ==
  LET code == C.codes[m.i + 1]
      j == m.i + 1
      step == C.steps[j]
      f == Fresh(m.s, step.g)
  IN  IF Len(f.guess) = 0 \/ Len(C.tr) < j
      THEN [m EXCEPT !.i = j, !.pos = @ + Emitted(code),
                     !.s = [guess |-> << >>, k |-> 0],
                     !.t = Say(@, IF Len(f.guess) = 0 THEN "empty prediction" ELSE "trace too short", j),
                     !.v = Say(@, IF Len(f.guess) = 0 THEN "empty prediction" ELSE "", j),
                     !.p = Say(@, IF C.rule = 1 /\ Len(f.guess) = 0 THEN "empty prediction" ELSE "", j)]
      ELSE [i |-> j, pos |-> m.pos + Emitted(code),
            s |-> After(f, Predicted(f) = code),
            t |-> Say(m.t, IF C.tr[j] # Traced(f, code) THEN "wrong entry" ELSE "", j),
            v |-> Say(m.v, IF ~ CorrectFrom(C.win, m.pos, step.g) THEN "not an encoding of what is ahead"
                           ELSE IF step.p # m.pos THEN "wrong position"
                           ELSE IF step.same # 1 THEN "asked twice, answered differently" ELSE "", j),
            p |-> IF C.rule = 0 \/ m.p # "" THEN m.p
                  ELSE Say("", IF step.g # Prediction(C, m.i, m.pos, PS)
                               THEN "not what the rule says" ELSE "", j)]

Batch == TLCEval([x \in 1..16 |-> x])
Codes ==
  /\ phase = "codes" /\ i < N
  /\ \E m \in {FoldLeft(LAMBDA a, x : IF a.i >= N THEN a ELSE One(a),
                        [i |-> i, pos |-> pos, s |-> s, t |-> tbad, v |-> vbad, p |-> pbad], Batch)} :
       /\ i' = m.i /\ pos' = m.pos /\ s' = m.s /\ tbad' = m.t /\ vbad' = m.v /\ pbad' = m.p
  /\ UNCHANGED << c, phase >>

Report(what, verdict) ==
  IF verdict = "" THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> what, why |-> verdict]))

TraceVerdict ==
  IF C.tst # "ok" THEN "tracing failed: " \o C.tst
  ELSE IF tbad # "" THEN tbad
  ELSE IF Len(C.tr) # N THEN "not one entry per code"
  ELSE IF C.tg \notin {"ok", "na"} THEN "try_gzip: " \o C.tg ELSE ""
RestoreVerdict ==
  IF C.tst # "ok" THEN "tracing failed: " \o C.tst
  ELSE IF C.tg \notin {"ok", "na", "differs"} THEN "try_gzip: " \o C.tg
  ELSE IF C.rst # "ok" THEN "restoring failed: " \o C.rst
  ELSE IF C.res # C.codes THEN "restored other codes" ELSE ""

End ==
  /\ phase = "codes" /\ i = N
  /\ Report("trace", TraceVerdict)
  /\ Report("restore", RestoreVerdict)
  /\ Report("valid", IF C.sst # "ok" THEN "predicting failed: " \o C.sst ELSE vbad)
  /\ Report("rule", IF C.sst # "ok" THEN "predicting failed: " \o C.sst
                    ELSE IF pbad = "" /\ C.tst = "ok" /\ C.tg = "differs" THEN "try_gzip follows another rule"
                    ELSE pbad)
  /\ PrintT("DONE " \o C.id)
  /\ phase' = "done" /\ UNCHANGED << c, i, pos, s, tbad, vbad, pbad >>

\* the code broke down while predicting: nothing more to follow
Broken ==
  /\ phase = "codes" /\ C.sst # "ok" /\ i < N
  /\ i' = N /\ UNCHANGED << c, pos, s, tbad, vbad, pbad, phase >>

Next == Check \/ (C.sst = "ok" /\ Codes) \/ Broken \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
