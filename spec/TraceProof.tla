----------------------------- MODULE TraceProof -----------------------------
(* Restoring undoes tracing, proved for codes of any number, any data and    *)
(* any predictor (TraceMachineMC checks the same for short data, together    *)
(* with what the entries say, and that restoring asks for no other           *)
(* predictions than tracing did). The two run side by side here: restoring   *)
(* only uses entries that were made, in order, so it can.                    *)
(*                                                                           *)
(* Predict(codes so far) is the prediction, Byte(codes so far) the byte of   *)
(* the data where these end. Proved with tlapm.                              *)
EXTENDS TraceMachine, TLAPS

CONSTANTS Predict(_), Byte(_), Codes
ASSUME CodesAreNumbers == Codes \subseteq Nat

VARIABLES codes, s, entries,      \* tracing
          back, t                 \* restoring
vars == << codes, s, entries, back, t >>

Start == [guess |-> << >>, k |-> 0]
Init == codes = << >> /\ s = Start /\ entries = << >> /\ back = << >> /\ t = Start

Step(code) ==
  /\ IsRefCode(code) \/ code = Byte(codes)
  /\ LET f == Fresh(s, Predict(codes))
         g == Fresh(t, Predict(back))
         e == Traced(f, code)
         c == Restored(g, e, Byte(back))
     IN  /\ entries' = Append(entries, e)
         /\ codes' = Append(codes, code)
         /\ s' = After(f, Predicted(f) = code)
         /\ back' = Append(back, c)
         /\ t' = After(g, e = Right)
Next == \E code \in Codes : Step(code)
Spec == Init /\ [][Next]_vars

Inv == back = codes /\ t = s

LEMMA EntryTells == ASSUME NEW f, NEW code \in Nat
                    PROVE  (Traced(f, code) = Right) <=> (Predicted(f) = code)
  BY DEF Traced, EntryOf, IsRefCode, Right

LEMMA EntryRestores == ASSUME NEW f, NEW code \in Nat, NEW byte, IsRefCode(code) \/ code = byte
                       PROVE  Restored(f, Traced(f, code), byte) = code
  BY DEF Restored, Traced, EntryOf, IsRefCode, Right

THEOREM Undone == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, vars
  <2>2. CASE Next
    <3> PICK code \in Codes : Step(code)
      BY <2>2 DEF Next
    <3> DEFINE f == Fresh(s, Predict(codes))
               e == Traced(f, code)
    <3>0. code \in Nat
      BY CodesAreNumbers
    <3>1. Fresh(t, Predict(back)) = f
      BY DEF Inv
    <3>2. codes' = Append(codes, code) /\ back' = Append(codes, Restored(f, e, Byte(codes)))
      BY <3>1 DEF Step, Inv
    <3>3. s' = After(f, Predicted(f) = code) /\ t' = After(f, e = Right)
      BY <3>1 DEF Step
    <3>4. Restored(f, e, Byte(codes)) = code
      BY <3>0, EntryRestores DEF Step
    <3>5. (e = Right) <=> (Predicted(f) = code)
      BY <3>0, EntryTells
    <3>6. After(f, Predicted(f) = code) = After(f, e = Right)
      BY <3>5 DEF After
    <3> QED
      BY <3>2, <3>3, <3>4, <3>6 DEF Inv
  <2> QED
    BY <2>1, <2>2
<1> QED
  BY <1>1, <1>2, PTL DEF Spec
=============================================================================
