---------------------------- MODULE TraceFormatMC ---------------------------
(* Writing then reading, for every sequence of some telling entries; reading *)
(* every cut of it. FullRun is small, so that runs of several words are      *)
(* short. The sequences are printed (with runs scaled to the real FullRun)   *)
(* to be replayed.                                                           *)
EXTENDS TraceFormat

CONSTANTS Depth, Dists, Lens, Runs

VARIABLES entries, done, r, cut
vars == << entries, done, r, cut >>

Entries == {0} \cup {65536 * n + d : n \in Lens, d \in Dists} \cup {-n : n \in Runs}

Init == entries = << >> /\ done = FALSE /\ r = Start /\ cut = -1
More == /\ ~ done /\ Len(entries) < Depth
        /\ \E e \in Entries :
             /\ e < 0 => (IF Len(entries) = 0 THEN TRUE ELSE entries[Len(entries)] >= 0)
             /\ entries' = Append(entries, e)
        /\ UNCHANGED << done, r, cut >>
\* the reader reads all of it, or it ends (cut) somewhere
Stop == /\ ~ done /\ done' = TRUE /\ r' = Start
        /\ cut' \in 0..Len(Written(entries))
        /\ UNCHANGED entries
Read == /\ done /\ r.st = "run" /\ r' = Record(SubSeq(Written(entries), 1, cut), -1, r)
        /\ UNCHANGED << entries, done, cut >>
Next == More \/ Stop \/ Read
Spec == Init /\ [][Next]_vars

Whole == cut = Len(Written(entries))
\* what was written is read back, with every byte accounted for
Lossless == (done /\ Whole) => /\ r.st # "err"
                               /\ r.st = "ok" => r.tr = entries /\ r.at = cut
\* of a cut one, either an error, or exactly the records that are complete (as entries in which
\* the last run may be shorter)
CutIsSeen ==
  (done /\ r.st = "ok") =>
     /\ r.at = cut
     /\ \E k \in 0..Len(entries) :
          \/ r.tr = SubSeq(entries, 1, k)
          \/ k < Len(entries) /\ entries[k + 1] < 0 /\ Len(r.tr) = k + 1
             /\ SubSeq(r.tr, 1, k) = SubSeq(entries, 1, k) /\ r.tr[k + 1] > entries[k + 1]
Unique == \A e \in Entries : \A f \in Entries : Layout(e) = Layout(f) => e = f

Printed == IF done \/ entries = << >> THEN TRUE ELSE PrintT("CASE " \o ToString(entries))
=============================================================================
