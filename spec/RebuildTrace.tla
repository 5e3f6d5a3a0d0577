---------------------------- MODULE RebuildTrace ----------------------------
(* Recorded rebuilds of whole gzip files from header, data and metadata:     *)
(* whenever the Gzip machine accepts the file, the rebuilt bytes are it.     *)
EXTENDS GzipTrace
Verdict ==
  IF phase # "end" THEN ""
  ELSE IF odd /\ (C.st # "ok" \/ C.rec # C.inp) THEN "odd258"
  ELSE IF C.st # "ok" THEN "failed: " \o C.st \o " in " \o C.stage
  ELSE IF bad # "" \/ Len(C.data) # op THEN "other data"
  ELSE IF Len(C.kinds) # nb THEN "other number of blocks"
  ELSE IF C.rec # C.inp THEN "rebuilt file differs" ELSE ""
Init == c \in 1..Len(Cases) /\ TInit
End == phase \in {"end", "fault"} /\ Report("rebuild", Verdict) /\ Finished
Next == FNext(C.inp, C.data) \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
