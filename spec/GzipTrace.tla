------------------------------ MODULE GzipTrace -----------------------------
(* What recorded runs over whole gzip files have in common: the file is      *)
(* decoded by the Gzip machine and its content compared, code by code, with  *)
(* a recorded byte sequence (used by CatTrace, ZeroTrace and RebuildTrace).  *)
EXTENDS Gzip, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES
  c,     \* case number
  nb,    \* blocks completed
  op,    \* bytes of content so far
  odd,   \* a run of 258 was written as symbol 284
  bad,   \* first disagreement; "" if none
  why    \* what the fault was, if there is one
tvars == << c, nb, op, odd, bad, why >>
vars == << hphase, hat, phase, bp, final, lit, dst, nodst, kind, c, nb, op, odd, bad, why >>
View == << c, hphase, hat, phase, bp, nb, op, bad >>
C == Cases[c]

TInit == GInit /\ nb = 0 /\ op = 0 /\ odd = FALSE /\ bad = "" /\ why = ""

Memory == [what |-> "", bp |-> bp, op |-> op, odd |-> odd, bad |-> bad]

Fate(name) == why' = IF phase' = "fault" THEN name ELSE why

FHeader(in) == /\ Header(in, Len(in)) /\ Fate("header")
               /\ UNCHANGED << c, nb, op, odd, bad >>
FBlock(in)  == /\ BlockHeader(in, 8 * Len(in)) /\ Fate("block")
               /\ UNCHANGED << c, nb, op, odd, bad >>
FTables(in) == /\ Tables(in, 8 * Len(in)) /\ Fate("tables")
               /\ UNCHANGED << c, nb, op, odd, bad >>
FStored(in, want) ==
  /\ Stored(in, 8 * Len(in)) /\ Fate("stored")
  /\ \E s \in {StoredBody(in, 8 * Len(in))} :
     IF ~ s.ok THEN UNCHANGED << nb, op, bad >>
     ELSE \E m \in {Compare(Memory, want, s.len, LAMBDA k : SubSeq(in, s.from + 1, s.from + k))} :
            nb' = nb + 1 /\ op' = m.op /\ bad' = m.bad
  /\ UNCHANGED << c, odd >>

\* A batch of codes, as in DeflateTrace.
Batch == TLCEval([i \in 1..48 |-> i])
Stops == {"bad", "badref", "eob"}
OneCode(m, in, want) ==
  LET k == CodeAt(in, 8 * Len(in), m.bp) IN
  IF k.what \in {"bad", "eob"} THEN [m EXCEPT !.what = k.what, !.bp = k.bp]
  ELSE Content([m EXCEPT !.what = k.what, !.bp = k.bp, !.odd = @ \/ k.odd], want, k.code)
FCode(in, want) ==
  /\ phase = "codes"
  /\ \E m \in {FoldLeft(LAMBDA a, i : IF a.what \in Stops THEN a ELSE OneCode(a, in, want), Memory, Batch)} :
         /\ IF m.what = "eob" THEN NextBlock(m.bp)
            ELSE /\ phase' = IF m.what \in {"bad", "badref"} THEN "fault" ELSE phase
                 /\ bp' = m.bp
                 /\ UNCHANGED << final, lit, dst, nodst, kind >>
         /\ nb' = IF m.what = "eob" THEN nb + 1 ELSE nb
         /\ op' = m.op /\ odd' = m.odd /\ bad' = m.bad
         /\ why' = IF m.what = "bad" THEN "code" ELSE IF m.what = "badref" THEN "badref" ELSE why
  /\ UNCHANGED c
FTrailer(in) == /\ Trailer(in, 8 * Len(in)) /\ Fate("padding")
                /\ UNCHANGED << c, nb, op, odd, bad >>

FNext(in, want) ==
  \/ FHeader(in)
  \/ (FBlock(in) \/ FTables(in) \/ FStored(in, want) \/ FCode(in, want) \/ FTrailer(in)) /\ UNCHANGED << hphase, hat >>

Report(what, verdict) ==
  IF verdict = "" THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> what, valid |-> (phase = "end"), fault |-> why, odd |-> odd,
                                 why |-> verdict, bit |-> bp, block |-> nb, out |-> op]))
Finished == /\ PrintT("DONE " \o C.id)
            /\ phase' = "done"
            /\ UNCHANGED << hphase, hat, bp, final, lit, dst, nodst, kind, c, nb, op, odd, bad, why >>
=============================================================================
