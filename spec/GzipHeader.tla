------------------------------ MODULE GzipHeader ----------------------------
(* Reading a gzip member header (RFC 1952) from the start of `in`, of which  *)
(* the first `avail` bytes can be had. A state machine: each step takes one  *)
(* field.                                                                    *)
EXTENDS Bits, TLC

VARIABLES hphase, hat       \* the next field; the bytes taken so far
hvars == << hphase, hat >>

HInit == hphase = "fixed" /\ hat = 0

Flag(in, bit) == (in[4] \div TwoTo(bit)) % 2 = 1
FHCRC == 1
FEXTRA == 2
FNAME == 3
FCOMMENT == 4

\* after a field, the next one there is
FieldAfter(in, field) ==
  IF field = "fixed" /\ Flag(in, FEXTRA) THEN "extra"
  ELSE IF field \in {"fixed", "extra"} /\ Flag(in, FNAME) THEN "name"
  ELSE IF field \in {"fixed", "extra", "name"} /\ Flag(in, FCOMMENT) THEN "comment"
  ELSE IF field # "crc" /\ Flag(in, FHCRC) THEN "crc"
  ELSE "body"

HGo(in, avail, n) == IF hat + n > avail THEN hphase' = "bad" /\ hat' = avail
                     ELSE hphase' = FieldAfter(in, hphase) /\ hat' = hat + n

HFixed(in, avail) ==
  /\ hphase = "fixed"
  /\ IF avail >= 10 /\ ~ (in[1] = 31 /\ in[2] = 139 /\ in[3] = 8 /\ in[4] \div 32 = 0)
     THEN hphase' = "bad" /\ hat' = 10
     ELSE HGo(in, avail, 10)
HExtra(in, avail) ==
  /\ hphase = "extra"
  /\ IF hat + 2 > avail THEN HGo(in, avail, 2) ELSE HGo(in, avail, 2 + in[hat + 1] + 256 * in[hat + 2])
\* up to and including the next zero byte
HText(in, avail) ==
  /\ hphase \in {"name", "comment"}
  /\ \E z \in {SelectInSeq(SubSeq(in, hat + 1, avail), LAMBDA b : b = 0)} :
       HGo(in, avail, IF z = 0 THEN avail + 1 ELSE z)
HCrc(in, avail) == hphase = "crc" /\ HGo(in, avail, 2)
HNext(in, avail) == HFixed(in, avail) \/ HExtra(in, avail) \/ HText(in, avail) \/ HCrc(in, avail)
=============================================================================
