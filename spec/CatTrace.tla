------------------------------ MODULE CatTrace ------------------------------
(* Recorded runs of 'rezippers cat': its exit status C.st ("0", another      *)
(* number, "panic", "signal", "hang") and what it printed, C.out.            *)
EXTENDS GzipTrace
Verdict ==
  IF C.st \in {"panic", "signal", "hang"} THEN "did not exit properly: " \o C.st
  ELSE IF bad # "" THEN bad
  ELSE IF Len(C.out) > op THEN "printed too much"
  ELSE IF phase = "end"
       THEN IF C.st # "0" THEN "failed on a valid file"
            ELSE IF Len(C.out) # op THEN "printed too little" ELSE ""
       ELSE IF C.st = "0" THEN "success on a damaged file" ELSE ""
Init == c \in 1..Len(Cases) /\ TInit
End == phase \in {"end", "fault"} /\ Report("cat", Verdict) /\ Finished
Next == FNext(C.inp, C.out) \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
