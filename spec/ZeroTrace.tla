------------------------------ MODULE ZeroTrace -----------------------------
(* Recorded runs of 'rezippers zero'. The input is decoded by the Gzip       *)
(* machine (its content checked against the driver's, C.content); then the   *)
(* machine starts again on what was printed, which must have the same header *)
(* bytes, stored blocks only with the same content, cut by the rule below,   *)
(* and end in the content's CRC-32 and length.                               *)
EXTENDS GzipTrace, Crc32
VARIABLES side,  \* "in" or "out"
          head,  \* bytes of the input's header
          zbad,  \* first disagreement in the output
          zcut   \* first wrong cut
zvars == << vars, side, head, zbad, zcut >>
ZView == << View, side, zbad, zcut >>

Init == c \in 1..Len(Cases) /\ TInit /\ side = "in" /\ head = 0 /\ zbad = "" /\ zcut = ""

First == 8192
Biggest == 65535
\* The block that starts after `at` bytes of content ends after the first 8192 or more bytes of its
\* own at which its latest 8192 sum to a multiple of 4096, at 65535, or at the end.
UpToBiggest == TLCEval([i \in 1..Biggest |-> i])
CutLength(content, at) ==
  LET n == MinOf(Biggest, Len(content) - at) IN
  IF n <= First THEN n
  ELSE FoldLeft(LAMBDA a, i :
                  IF a.cut > 0 THEN a
                  ELSE IF a.sum % 4096 = 0 THEN [a EXCEPT !.cut = i - 1]
                  ELSE [a EXCEPT !.sum = @ + content[at + i] - content[at + i - First]],
                [cut |-> 0, sum |-> FoldLeft(LAMBDA s, b : s + b, 0, SubSeq(content, at + 1, at + First))],
                SubSeq(UpToBiggest, First + 1, n)).cut

Lcut(content, at) == LET k == CutLength(content, at) IN
                     IF k = 0 THEN MinOf(Biggest, Len(content) - at) ELSE k

Decode == /\ side = "in" /\ phase \notin {"end", "fault", "done"}
          /\ FNext(C.inp, C.content)
          /\ UNCHANGED << side, head, zbad, zcut >>

Fail2(verdict) == IF zbad # "" THEN zbad ELSE verdict

\* C.zlib: 1 if the driver's decoder accepts the stream. Where it and the machine differ (padding,
\* unused codes, more than 286 literal or 30 distance lengths), nothing is expected.
\* C.lenient: 1 if it rejects it at a place the machine has not come to and that may be let pass.
InVerdict ==
  IF (phase = "end") # (C.zlib = 1) THEN "skip"
  ELSE IF phase = "end" /\ (bad # "" \/ Len(C.content) # op) THEN "WITNESS"
  ELSE IF C.st \in {"panic", "signal", "hang"} THEN "did not exit properly: " \o C.st
  ELSE IF phase = "end" THEN IF C.st # "0" THEN "failed on a valid file" ELSE ""
  ELSE IF C.st # "0" THEN ""
  ELSE IF why = "badref" THEN "badref" ELSE IF C.lenient = 1 THEN "skip" ELSE "success on a damaged file"

Judge == /\ side = "in" /\ phase \in {"end", "fault"}
         /\ IF phase = "end" /\ InVerdict = ""
            THEN /\ side' = "out" /\ head' = hat
                 /\ GReset /\ nb' = 0 /\ op' = 0 /\ UNCHANGED << c, odd, bad, why, zbad, zcut >>
            ELSE /\ Report("zero", IF InVerdict = "skip" THEN "" ELSE InVerdict) /\ Finished
                 /\ UNCHANGED << side, head, zbad, zcut >>

OHeader == /\ side = "out" /\ FHeader(C.out)
           /\ zbad' = Fail2(IF phase' = "block" /\ SubSeq(C.out, 1, hat') # SubSeq(C.inp, 1, head)
                            THEN "other header" ELSE "")
           /\ UNCHANGED << side, head, zcut >>
OBlock == /\ side = "out" /\ FBlock(C.out)
          /\ zbad' = Fail2(IF phase' \in {"codes", "tables"} THEN "a block that is not stored" ELSE "")
          /\ UNCHANGED << hphase, hat, side, head, zcut >>
\* any other block is not followed further
OOther == /\ side = "out" /\ phase \in {"codes", "tables"}
          /\ phase' = "fault" /\ UNCHANGED << hphase, hat, bp, final, lit, dst, nodst, kind >>
          /\ UNCHANGED << tvars, side, head, zbad, zcut >>
OStored ==
  /\ side = "out" /\ Stored(C.out, 8 * Len(C.out)) /\ Fate("stored")
  /\ \E s \in {StoredBody(C.out, 8 * Len(C.out))} :
     IF ~ s.ok THEN UNCHANGED << nb, op, zbad, zcut >>
     ELSE /\ nb' = nb + 1 /\ op' = op + s.len
          /\ zbad' = Fail2(IF op + s.len > Len(C.content) \/
                              SubSeq(C.out, s.from + 1, s.from + s.len) # SubSeq(C.content, op + 1, op + s.len)
                           THEN "other content" ELSE "")
          /\ zcut' = IF zcut # "" \/ zbad' # "" \/ s.len = Lcut(C.content, op) THEN zcut
                     ELSE "block " \o ToString(nb) \o " has " \o ToString(s.len) \o " bytes, not "
                          \o ToString(Lcut(C.content, op))
  /\ UNCHANGED << hphase, hat, c, odd, bad, side, head >>
OTrailer == /\ side = "out" /\ FTrailer(C.out)
            /\ UNCHANGED << hphase, hat, side, head, zbad, zcut >>

OutVerdict ==
  IF zbad # "" THEN zbad
  ELSE IF phase = "fault" THEN "output is damaged: " \o why
  ELSE IF op # Len(C.content) THEN "content cut short"
  ELSE LET at == bp \div 8 IN
       IF Len(C.out) # at + 8 THEN "wrong length of the trailer"
       ELSE IF SubSeq(C.out, at + 1, at + 4) # Le(Crc(C.content)) THEN "wrong CRC"
       ELSE IF SubSeq(C.out, at + 5, at + 8) # Le(<< op \div 65536, op % 65536 >>) THEN "wrong length" ELSE ""

OEnd == /\ side = "out" /\ phase \in {"end", "fault"}
        /\ Report("zero", OutVerdict)
        /\ Report("cut", zcut)
        /\ Finished
        /\ UNCHANGED << side, head, zbad, zcut >>

Next == Decode \/ Judge \/ OHeader \/ OBlock \/ OOther \/ OStored \/ OTrailer \/ OEnd
Spec == Init /\ [][Next]_zvars
=============================================================================
