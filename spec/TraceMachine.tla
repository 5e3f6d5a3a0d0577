---------------------------- MODULE TraceMachine ----------------------------
(* Making a trace of codes against a predictor, and restoring codes from it. *)
(*                                                                           *)
(* The predictor is a function of the codes processed so far (of the data    *)
(* too, which is fixed). One entry per code: Right if the code is what the   *)
(* current prediction says, otherwise the code itself, and the rest of the   *)
(* prediction is dropped.                                                    *)
EXTENDS Integers, Sequences, TLC

Right == -1
IsRefCode(code) == code >= 65536
EntryOf(code) == IF IsRefCode(code) THEN code ELSE 0   \* 0: "it is a literal"

\* s = [guess, k]: the current prediction and how much of it has been used up.
NeedsNew(s) == s.k >= Len(s.guess)
Fresh(s, prediction) == IF NeedsNew(s) THEN [guess |-> prediction, k |-> 0] ELSE s
Predicted(s) == s.guess[s.k + 1]
After(s, hit) == IF hit THEN [s EXCEPT !.k = @ + 1] ELSE [guess |-> << >>, k |-> 0]

\* one code traced: its entry, with s already Fresh
Traced(s, code) == IF Predicted(s) = code THEN Right ELSE EntryOf(code)
\* one entry restored; byte is the byte at the current position of the data
Restored(s, entry, byte) ==
  IF entry = Right THEN Predicted(s) ELSE IF entry = 0 THEN byte ELSE entry
=============================================================================
