----------------------------- MODULE GzipHeaderMC ---------------------------
(* Every combination of flags with short fields, followed by a few bytes and *)
(* cut anywhere: the reader ends exactly where the fields end, and on        *)
(* nothing that is cut or damaged. Every input is printed, to be replayed.   *)
EXTENDS GzipHeader, Json

CONSTANTS Extras, Texts, Damage

VARIABLES in, want, cut
vars == << in, want, cut, hphase, hat >>

SomeTexts == {<< >>, << 65 >>}
MoreTexts == {<< >>, << 65 >>, << 255, 1 >>}
SomeDamage == {<< 1, 30 >>, << 2, 138 >>, << 2, 0 >>, << 3, 7 >>, << 3, 9 >>, << 4, 32 >>, << 4, 64 >>, << 4, 128 >>}
Built(flags, x, name, com) ==
  << 31, 139, 8, flags, 0, 1, 2, 3, 4, 5 >>
  \o (IF (flags \div 4) % 2 = 1 THEN << x % 256, x \div 256 >> \o [i \in 1..x |-> i % 3] ELSE << >>)
  \o (IF (flags \div 8) % 2 = 1 THEN name \o << 0 >> ELSE << >>)
  \o (IF (flags \div 16) % 2 = 1 THEN com \o << 0 >> ELSE << >>)
  \o (IF (flags \div 2) % 2 = 1 THEN << 0, 9 >> ELSE << >>)

Init ==
  /\ HInit
  /\ \E flags \in 0..31, x \in Extras, name \in Texts, com \in Texts :
       \E h \in {Built(flags, x, name, com)} :
         \/ /\ want = Len(h) /\ in = h \o << 0, 3, 0, 0 >>
            /\ cut \in (0..Len(h)) \cup {Len(h) + 4}
         \* one byte of the fixed part made wrong
         \/ \E d \in Damage : /\ in = [h EXCEPT ![d[1]] = d[2] + (IF d[1] = 4 THEN flags ELSE 0)] \o << 0, 3, 0 >>
                              /\ want = -1 /\ cut = Len(h) + 3
Next == HNext(in, cut) /\ UNCHANGED << in, want, cut >>
Spec == Init /\ [][Next]_vars

Ended == hphase \in {"body", "bad"}
Exact == Ended => IF want >= 0 /\ cut >= want THEN hphase = "body" /\ hat = want ELSE hphase = "bad"
Goes == Ended \/ ENABLED Next
Printed == IF hphase = "fixed" THEN PrintT("CASE " \o ToJson(SubSeq(in, 1, cut))) ELSE TRUE
=============================================================================
