------------------------------ MODULE DumpTrace -----------------------------
(* Recorded runs of 'rezippers dump': status C.st and printed lines C.lines  *)
(* (a character beyond ASCII shown by the driver as its number in <>).       *)
(* The Gzip machine decodes the file and each block and code is rendered.    *)
EXTENDS Gzip, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES
  c,     \* case number
  nb,    \* blocks completed
  start, \* lines of completed blocks
  nl,    \* lines matched
  bad,   \* first disagreement in completed blocks
  pend   \* first disagreement in the current one
vars == << hphase, hat, phase, bp, final, lit, dst, nodst, kind, c, nb, start, nl, bad, pend >>
View == << c, hphase, hat, phase, bp, nb, start, nl, bad, pend >>
C == Cases[c]
In == C.inp
Avail == 8 * Len(In)
Init == c \in 1..Len(Cases) /\ GInit /\ nb = 0 /\ start = 0 /\ nl = 0 /\ bad = "" /\ pend = ""

Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
Hex2(b) == Digits[(b \div 16) + 1] \o Digits[(b % 16) + 1]
Hex(b) == IF b < 16 THEN Digits[b + 1] ELSE Hex2(b)
\* printable ASCII from 32 to 126
Ascii == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
\* a byte as a character constant
Char(b) ==
  CASE b = 0 -> "\\0" [] b = 9 -> "\\t" [] b = 10 -> "\\n" [] b = 13 -> "\\r"
    [] b = 39 -> "\\'" [] b = 92 -> "\\\\"
    [] b \in 32..126 \ {39, 92} -> Ascii[b - 31]
    [] b \in (1..31 \ {9, 10, 13}) \union (127..160) \union {173} -> "\\u{" \o Hex(b) \o "}"
    [] b \in 161..255 \ {173} -> "<" \o Hex2(b) \o ">"
LitLine == TLCEval([i \in 1..256 |-> "    - lit: 0x" \o Hex2(i - 1) \o ": '" \o Char(i - 1) \o "'"])
CodeLine(code) ==
  IF IsRef(code) THEN "    - backref: " \o ToString(DistanceOf(code)) \o " byte(s) back, "
                      \o ToString(RunOf(code)) \o " bytes long"
  ELSE LitLine[code + 1]
BitsText(from, to) ==
  FoldLeft(LAMBDA s, i : s \o (IF Bit(In, from + i - 1) = 1 THEN "1" ELSE "0"), "",
           TLCEval([i \in 1..(to - from) |-> i]))

\* m = [what, bp, nl, pend]; the next line must be `want`
Line(m, want) ==
  [m EXCEPT !.nl = @ + 1,
            !.pend = IF @ # "" THEN @
                     ELSE IF m.nl >= Len(C.lines) THEN "line missing: " \o want
                     ELSE IF C.lines[m.nl + 1] # want THEN "not " \o want \o ": " \o C.lines[m.nl + 1] ELSE ""]
Memory == [what |-> "", bp |-> bp, nl |-> nl, pend |-> pend]
BlockLine == "block " \o ToString(nb) \o ":"

\* the block is complete after the lines of m
Complete(m) == /\ nb' = nb + 1 /\ start' = m.nl /\ nl' = m.nl /\ pend' = ""
               /\ bad' = IF bad = "" THEN m.pend ELSE bad

DHeader == Header(In, Len(In)) /\ UNCHANGED << c, nb, start, nl, bad, pend >>
DBlock ==
  /\ BlockHeader(In, Avail)
  /\ \E m \in {Line(Memory, BlockLine)} :
     \E n \in {IF phase' = "codes" THEN Line(m, " - fixed huffman:") ELSE m} :
        nl' = n.nl /\ pend' = n.pend
  /\ UNCHANGED << hphase, hat, c, nb, start, bad >>
DStored ==
  /\ Stored(In, Avail)
  /\ IF phase' = "fault" THEN UNCHANGED << nb, start, nl, bad, pend >>
     ELSE \E s \in {StoredBody(In, Avail)} :
            Complete(Line(Memory, " - uncompressed: " \o ToString(s.len) \o " bytes"))
  /\ UNCHANGED << hphase, hat, c >>
DTables ==
  /\ Tables(In, Avail)
  /\ IF phase' = "fault" THEN UNCHANGED << nl, pend >>
     ELSE \E m \in {Line(Memory, " - dynamic huffman: BitVec: " \o ToString(bp' - bp) \o ": " \o BitsText(bp, bp'))} :
            nl' = m.nl /\ pend' = m.pend
  /\ UNCHANGED << hphase, hat, c, nb, start, bad >>
Batch == TLCEval([i \in 1..48 |-> i])
OneCode(m) ==
  LET k == CodeAt(In, Avail, m.bp) IN
  IF k.what \in {"bad", "eob"} THEN [m EXCEPT !.what = k.what, !.bp = k.bp]
  ELSE Line([m EXCEPT !.bp = k.bp], CodeLine(k.code))
DCode ==
  /\ phase = "codes"
  /\ \E m \in {FoldLeft(LAMBDA a, i : IF a.what # "" THEN a ELSE OneCode(a), Memory, Batch)} :
        IF m.what = "eob" THEN NextBlock(m.bp) /\ Complete(m)
        ELSE /\ phase' = IF m.what = "bad" THEN "fault" ELSE phase
             /\ bp' = m.bp /\ nl' = m.nl /\ pend' = m.pend
             /\ UNCHANGED << final, lit, dst, nodst, kind, nb, start, bad >>
  /\ UNCHANGED << hphase, hat, c >>
DTrailer == Trailer(In, Avail) /\ UNCHANGED << hphase, hat, c, nb, start, nl, bad, pend >>

Verdict ==
  IF C.st \in {"panic", "signal", "hang"} THEN "did not exit properly: " \o C.st
  ELSE IF bad # "" THEN bad
  ELSE IF Len(C.lines) # start THEN "lines after the last complete block"
  ELSE IF phase = "end" THEN IF C.st # "0" THEN "failed on a valid file" ELSE ""
  ELSE IF C.st = "0" THEN "success on a damaged file" ELSE ""
End == /\ phase \in {"end", "fault"}
       /\ IF Verdict = "" THEN TRUE
          ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> "dump", valid |-> (phase = "end"), why |-> Verdict, block |-> nb, line |-> nl]))
       /\ PrintT("DONE " \o C.id)
       /\ phase' = "done"
       /\ UNCHANGED << hphase, hat, bp, final, lit, dst, nodst, kind, c, nb, start, nl, bad, pend >>
Next == DHeader \/ DBlock \/ DStored \/ DTables \/ DCode \/ DTrailer \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
