---------------------------- MODULE DeflateTrace ----------------------------
(* Trace specification: are recorded parses, decompressions and              *)
(* re-serialisations of the real code behaviours of Deflate?                 *)
(*                                                                           *)
(* Each case is one recorded run over one input. The machine decodes the     *)
(* input; each of its steps is matched with the next piece of the record: a  *)
(* block, a code, a stretch of output. Nothing is taken from the record that *)
(* the machine does not itself derive. The first disagreement of each kind   *)
(* is remembered; at the end of the case it is reported (with the verdict    *)
(* whether the input was valid). Every case is a behaviour of its own.       *)
EXTENDS Deflate, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Cases)

VARIABLES
  c,     \* case number
  nb,    \* blocks completed
  nc,    \* codes matched in the current block
  op,    \* bytes decompressed so far
  dec,   \* "run": the decompressor follows; "stop": it has ended in an error, or was not run
  odd,   \* "no", or "yes"/"nosym": length 258 was coded as 284+31, "nosym" where 285 has no code
  pbad, dbad  \* first disagreement in parsing / in decompression; "" if none

vars == << phase, bp, final, lit, dst, nodst, kind, c, nb, nc, op, dec, odd, pbad, dbad >>
\* code tables are a function of the rest, so they need not be fingerprinted
View == << c, phase, bp, nb, nc, op, dec, pbad, dbad >>

C == Cases[c]
In == C.inp
Avail == IF C.rfail >= 0 /\ C.rfail < Len(In) THEN 8 * C.rfail ELSE 8 * Len(In)

InitCase == /\ nb = 0 /\ nc = 0 /\ op = 0 /\ dec = (IF C.dst = "na" THEN "stop" ELSE "run") /\ odd = "no" /\ pbad = "" /\ dbad = ""
Init == c \in 1..N /\ DInit(0) /\ InitCase

Logged == nb < Len(C.blocks)      \* the code has returned the block being decoded
LB == C.blocks[nb + 1]

\* Bytes the sink may take before its planned fault.
SinkLimit == IF C.dfail >= 0 THEN C.dfail ELSE 2000000000

(* What is remembered while codes are matched: m = [what (of the last code), *)
(* bp, nc, op, dec, odd, pbad, dbad].                                        *)
Memory == [what |-> "", bp |-> bp, nc |-> nc, op |-> op, dec |-> dec, odd |-> odd,
           pbad |-> pbad, dbad |-> dbad]

PBad(m, bad) == IF bad = "" \/ m.pbad # "" THEN m ELSE [m EXCEPT !.pbad = bad]
DBad(m, bad) == [m EXCEPT !.dec = "stop", !.dbad = IF @ = "" THEN bad ELSE @]

\* Decompression of n bytes, the first k of which must be Want(k).
Emit(m, n, Want(_)) ==
  LET k == MinOf(n, SinkLimit - m.op) IN
  IF m.op + k > Len(C.out) THEN DBad(m, "output too short")
  ELSE IF SubSeq(C.out, m.op + 1, m.op + k) # Want(k) THEN DBad(m, "wrong bytes")
  ELSE IF k < n THEN
    DBad([m EXCEPT !.op = @ + k],
         IF C.dst # "err" THEN "sink fault not reported"
         ELSE IF Len(C.out) # m.op + k THEN "output after the sink fault"
         ELSE IF C.db # nb THEN "wrong block count at the sink fault" ELSE "")
  ELSE [m EXCEPT !.op = @ + k]

Decompress(m, code) ==
  IF m.dec = "stop" \/ ~ Logged THEN m
  ELSE IF ~ IsRef(code) THEN Emit(m, 1, LAMBDA k : IF k = 0 THEN << >> ELSE << code >>)
  ELSE LET d == DistanceOf(code) IN
       IF d > MinOf(m.op, C.wcap)
       THEN DBad(m, IF C.dst # "err" THEN "reference before the start not rejected"
                    ELSE IF Len(C.out) # m.op THEN "output from a reference before the start"
                    ELSE IF C.db # nb THEN "wrong block count at a bad reference" ELSE "")
       \* copying byte by byte: byte i of the output is byte i - d of it
       ELSE Emit(m, RunOf(code), LAMBDA k : SubSeq(C.out, m.op + 1 - d, m.op + k - d))

Remember(r) == \E m \in {r} :
               /\ nc' = m.nc /\ op' = m.op /\ dec' = m.dec /\ odd' = m.odd
               /\ pbad' = m.pbad /\ dbad' = m.dbad

-----------------------------------------------------------------------------
THeader == /\ BlockHeader(In, Avail)
           /\ nc' = 0
           /\ UNCHANGED << c, nb, op, dec, odd, pbad, dbad >>

TStored ==
  /\ Stored(In, Avail)
  /\ \E s \in {StoredBody(In, Avail)} :
     IF ~ s.ok THEN UNCHANGED << nb, nc, op, dec, odd, pbad, dbad >>
     ELSE /\ nb' = nb + 1
          /\ \E m \in {PBad(Memory,
                     IF ~ Logged THEN "stored block missing"
                     ELSE IF LB.k # 0 THEN "not a stored block"
                     ELSE IF LB.d # SubSeq(In, s.from + 1, s.from + s.len) THEN "wrong stored bytes"
                     ELSE "")} :
                 Remember(IF dec = "stop" \/ ~ Logged THEN m
                          ELSE Emit(m, s.len, LAMBDA k : SubSeq(In, s.from + 1, s.from + k)))
  /\ UNCHANGED c

\* n bits packed into the bytes `packed` are the input's bits from..to-1.
SameBits(n, packed, from, to) ==
  /\ n = to - from
  /\ Len(packed) = (n + 7) \div 8
  /\ \A j \in 1..Len(packed) :
       packed[j] = Number(In, from + 8 * (j - 1), MinOf(8, n - 8 * (j - 1)))

TTables ==
  /\ Tables(In, Avail)
  /\ pbad' = IF phase' = "fault" \/ ~ Logged \/ pbad # "" THEN pbad
             ELSE IF LB.k # 2 THEN "not a dynamic block"
             ELSE IF ~ SameBits(LB.tn, LB.t, bp, bp') THEN "wrong table bits" ELSE ""
  /\ UNCHANGED << c, nb, nc, op, dec, odd, dbad >>

\* Does symbol s have a code?
HasCode(t, s) == \E i \in 1..Len(t.sym) : t.sym[i] = s

\* One code matched with the record.
Match(m) ==
  LET k == CodeAt(In, Avail, m.bp) IN
  IF k.what = "bad" THEN [m EXCEPT !.what = "bad"]
  ELSE IF k.what = "eob" THEN
    PBad([m EXCEPT !.what = "eob", !.bp = k.bp],
         IF ~ Logged THEN "block missing"
         ELSE IF LB.k # kind THEN "wrong kind of block"
         ELSE IF Len(LB.c) # m.nc THEN "too many codes" ELSE "")
  ELSE
    Decompress(
      PBad([m EXCEPT !.what = k.what, !.bp = k.bp, !.nc = @ + 1,
                     !.odd = IF ~ k.odd THEN @
                             ELSE IF @ = "nosym" \/ ~ HasCode(lit, 285) THEN "nosym" ELSE "yes"],
           IF ~ Logged THEN ""
           ELSE IF LB.k # kind THEN "wrong kind of block"
           ELSE IF m.nc >= Len(LB.c) THEN "too few codes"
           ELSE IF LB.c[m.nc + 1] # k.code THEN "wrong code" ELSE ""),
      k.code)

\* Up to Batch Code steps of the decoder at once: the composition of Code with
\* itself as long as it stays in the block (fewer states, same behaviours).
Batch == TLCEval([i \in 1..48 |-> i])
TCode ==
  /\ phase = "codes"
  /\ \E m \in {FoldLeft(LAMBDA a, i : IF a.what \in {"bad", "eob"} THEN a ELSE Match(a), Memory, Batch)} :
         /\ IF m.what = "eob" THEN NextBlock(m.bp)
            ELSE /\ phase' = IF m.what = "bad" THEN "fault" ELSE phase
                 /\ bp' = m.bp
                 /\ UNCHANGED << final, lit, dst, nodst, kind >>
         /\ nb' = IF m.what = "eob" THEN nb + 1 ELSE nb
         /\ Remember([m EXCEPT !.nc = IF m.what = "eob" THEN 0 ELSE @])
  /\ UNCHANGED c

TTrailer == /\ Trailer(In, Avail)
            /\ UNCHANGED << c, nb, nc, op, dec, odd, pbad, dbad >>

-----------------------------------------------------------------------------
(* The end of a case                                                         *)
ParseVerdict ==
  IF pbad # "" THEN pbad
  ELSE IF Len(C.blocks) # nb THEN "wrong number of blocks"
  ELSE IF phase = "end"
       THEN IF C.pst # "end" THEN "valid input rejected: " \o C.pst
            ELSE IF C.used * 8 # bp THEN "wrong number of bytes consumed"
            ELSE IF C.more # 0 THEN "more after the end" ELSE ""
       ELSE IF C.pst # "err" THEN "malformed input not rejected: " \o C.pst
            ELSE IF C.more # 0 THEN "more after the error" ELSE ""

DecompressVerdict ==
  IF dbad # "" THEN dbad
  ELSE IF dec = "run" /\ nb >= Len(C.blocks)
       THEN IF C.dst # "ok" THEN "decompression failed: " \o C.dst
            ELSE IF Len(C.out) # op THEN "too much output"
            ELSE IF C.db # Len(C.blocks) THEN "wrong block count"
            ELSE IF C.wanth = 1 /\ C.hist # SubSeq(C.out, MaxOf(op - C.wcap, 0) + 1, op) THEN "wrong history" ELSE ""
       ELSE ""

Used == bp \div 8
RecodeVerdict ==
  IF phase # "end" \/ C.wantr = 0 THEN ""
  ELSE IF C.cfail >= 0 /\ C.cfail < Used
       THEN IF C.rst # "err" THEN "sink fault not reported: " \o C.rst
            ELSE IF C.rec # SubSeq(In, 1, C.cfail) THEN "not a prefix before the sink fault" ELSE ""
  ELSE IF C.rst = "ok" /\ C.rec = SubSeq(In, 1, Used) THEN ""
  ELSE IF odd = "nosym" /\ C.rst \in {"panic", "err"} THEN "odd258"
  ELSE IF odd # "no" /\ C.rst = "ok" THEN "odd258"
  ELSE IF C.rst # "ok" THEN "re-serialising failed: " \o C.rst
  ELSE "re-serialised bytes differ"

Report(what, verdict) ==
  IF verdict = "" THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([id |-> C.id, kind |-> what, valid |-> (phase = "end"),
                                 why |-> verdict, bit |-> bp, block |-> nb, code |-> nc, out |-> op]))

EndCase ==
  /\ phase \in {"end", "fault"}
  /\ Report("parse", ParseVerdict)
  /\ Report("decompress", DecompressVerdict)
  /\ Report("recode", RecodeVerdict)
  /\ PrintT("DONE " \o ToString(C.id))
  /\ phase' = "done"
  /\ UNCHANGED << bp, final, lit, dst, nodst, kind, c, nb, nc, op, dec, odd, pbad, dbad >>

Next == THeader \/ TStored \/ TTables \/ TCode \/ TTrailer \/ EndCase
Spec == Init /\ [][Next]_vars
=============================================================================
