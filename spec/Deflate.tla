------------------------------ MODULE Deflate -------------------------------
(* A DEFLATE decoder (RFC 1951) as a state machine over a byte sequence, with *)
(* the restrictions rezip-rs documents or relies on to be able to rebuild the *)
(* file: padding bits must be zero; code tables must be complete, except for  *)
(* a distance table with one code of length one, or a single distance length  *)
(* of zero (no distance codes).                                               *)
(*                                                                            *)
(* The actions take the bytes `in` and the number of readable bits `avail`    *)
(* (less than 8*Len(in) if a read fault is planned); needing a bit at or past *)
(* `avail` is a fault. One action per block header, stored body, table, code. *)
(*                                                                            *)
(* Codes are numbers: a literal is its byte, a reference is                   *)
(* 65536 * length + distance.                                                 *)
(*                                                                            *)
(* (\E x \in {e} : ... instead of LET x == e in an action makes TLC evaluate  *)
(* e once.)                                                                   *)
EXTENDS Huffman

VARIABLES
  phase,  \* "block", "stored", "tables", "codes", "trailer", "end", "fault"
  bp,     \* bits consumed
  final,  \* the current block is marked final (0/1)
  lit,    \* literal/length code of the current block
  dst,    \* its distance code
  nodst,  \* it has no distance code at all
  kind    \* kind of the current block: 0 stored, 1 fixed, 2 dynamic

dvars == << phase, bp, final, lit, dst, nodst, kind >>

NoCode == [cnt |-> [l \in 1..MaxLen |-> 0], sym |-> << >>, full |-> FALSE,
           code |-> << >>, index |-> << >>, limit |-> << >>]

\* Start at bit `at` of the input.
DInit(at) == /\ phase = "block" /\ bp = at /\ final = 0 /\ kind = 0
             /\ lit = NoCode /\ dst = NoCode /\ nodst = TRUE

RefCode(len, dist) == 65536 * len + dist
RunOf(code)  == code \div 65536
DistanceOf(code) == code % 65536
IsRef(code)  == code >= 65536
OutLen(code) == IF IsRef(code) THEN RunOf(code) ELSE 1

Fault == /\ phase' = "fault"
         /\ UNCHANGED << bp, final, lit, dst, nodst, kind >>

-----------------------------------------------------------------------------
(* Block header                                                              *)
BlockHeader(in, avail) ==
  /\ phase = "block"
  /\ IF bp + 3 > avail THEN Fault
     ELSE \E k \in {Number(in, bp + 1, 2)} :
              IF k = 3 THEN Fault
              ELSE /\ phase' = CASE k = 0 -> "stored" [] k = 1 -> "codes" [] k = 2 -> "tables"
                   /\ kind' = k
                   /\ bp' = bp + 3
                   /\ final' = Bit(in, bp)
                   /\ lit' = IF k = 1 THEN FixedLit ELSE NoCode
                   /\ dst' = IF k = 1 THEN FixedDst ELSE NoCode
                   /\ nodst' = (k # 1)

NextBlock(at) ==
  /\ phase' = IF final = 1 THEN "trailer" ELSE "block"
  /\ bp' = at
  /\ lit' = NoCode /\ dst' = NoCode /\ nodst' = TRUE
  /\ UNCHANGED << final, kind >>

-----------------------------------------------------------------------------
(* Stored block: zero padding, LEN, its complement, LEN bytes                *)
ZeroPadding(in, at) == Number(in, at, PadLen(at)) = 0

\* [ok, from (0-based byte), len, bp]
StoredBody(in, avail) ==
  LET a   == bp + PadLen(bp)
      bad == [ok |-> FALSE, from |-> 0, len |-> 0, bp |-> bp]
  IN  IF a > avail \/ ~ ZeroPadding(in, bp) \/ a + 32 > avail THEN bad
      ELSE LET len == Number(in, a, 16)
               cpl == Number(in, a + 16, 16)
           IN  IF len + cpl # 65535 \/ a + 32 + 8 * len > avail THEN bad
               ELSE [ok |-> TRUE, from |-> (a + 32) \div 8, len |-> len, bp |-> a + 32 + 8 * len]

Stored(in, avail) ==
  /\ phase = "stored"
  /\ \E s \in {StoredBody(in, avail)} : IF s.ok THEN NextBlock(s.bp) ELSE Fault

-----------------------------------------------------------------------------
(* Code tables of a dynamic block                                            *)
CLOrder == << 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 >>

\* Where in CLOrder a symbol stands.
CLPlace == TLCEval([i \in 1..19 |-> CHOOSE j \in 1..19 : CLOrder[j] = i - 1])

\* One symbol of the table description onto what has been read:
\* ok, lens (so far), prev (the length to repeat, -1: none), bp.
ReadLen(in, avail, t, total, a) ==
  LET d == DecodeSym(in, avail, a.bp, t)
      n == IF d.sym <= 15 THEN 0 ELSE IF d.sym = 16 THEN 2 ELSE IF d.sym = 17 THEN 3 ELSE 7
      k == IF d.sym <= 15 THEN 1 ELSE (IF d.sym = 18 THEN 11 ELSE 3) + Number(in, d.bp, n)
      v == IF d.sym <= 15 THEN d.sym ELSE IF d.sym = 16 THEN a.prev ELSE 0
  IN  IF ~ d.ok \/ d.bp + n > avail \/ v = -1 \/ Len(a.lens) + k > total
      THEN [a EXCEPT !.ok = FALSE]
      ELSE [ok |-> TRUE, prev |-> v, bp |-> d.bp + n,
            lens |-> IF k = 1 THEN Append(a.lens, v) ELSE a.lens \o TLCEval([i \in 1..k |-> v])]

UpTo512 == TLCEval([i \in 1..512 |-> i])
\* All of them; every symbol adds at least one length.
ReadLens(in, avail, at, t, total) ==
  FoldLeft(LAMBDA a, i : IF ~ a.ok \/ Len(a.lens) = total THEN a ELSE ReadLen(in, avail, t, total, a),
           [ok |-> TRUE, lens |-> << >>, prev |-> -1, bp |-> at],
           SubSeq(UpTo512, 1, total))

\* [ok, lit, dst, nodst, bp]
TableBody(in, avail) ==
  LET bad == [ok |-> FALSE, lit |-> NoCode, dst |-> NoCode, nodst |-> TRUE, bp |-> bp]
  IN
  IF bp + 14 > avail THEN bad
  ELSE
  LET hlit  == Number(in, bp, 5) + 257
      hdist == Number(in, bp + 5, 5) + 1
      hclen == Number(in, bp + 10, 4) + 4
      at    == bp + 14 + 3 * hclen
  IN
  IF at > avail THEN bad
  ELSE
  LET cl == TLCEval([i \in 1..19 |->
               LET k == CLPlace[i]
               IN  IF k <= hclen THEN Number(in, bp + 14 + 3 * (k - 1), 3) ELSE 0])
      ct == CodeFrom(cl)
  IN
  IF ~ ct.full THEN bad
  ELSE
  LET r == ReadLens(in, avail, at, ct, hlit + hdist) IN
  IF ~ r.ok THEN bad
  ELSE
  LET ll    == SubSeq(r.lens, 1, hlit)
      dl    == SubSeq(r.lens, hlit + 1, hlit + hdist)
      lt    == CodeFrom(ll)
      ones  == CountLen(dl, 1)
      zeros == CountLen(dl, 0)
      none  == hdist = 1 /\ zeros = 1
      lone  == ones = 1 /\ zeros = hdist - 1
      \* a lone distance code gets a companion that decodes to a reserved symbol
      dfull == IF lone THEN TLCEval([i \in 1..32 |-> IF i = 32 THEN 1
                                             ELSE IF i <= MinOf(31, hdist) THEN dl[i] ELSE 0])
               ELSE dl
      dt    == IF none THEN NoCode ELSE CodeFrom(dfull)
  IN
  IF ~ lt.full \/ (~ none /\ ~ dt.full) THEN bad
  ELSE [ok |-> TRUE, lit |-> lt, dst |-> dt, nodst |-> none, bp |-> r.bp]

Tables(in, avail) ==
  /\ phase = "tables"
  /\ \E t \in {TableBody(in, avail)} :
         IF ~ t.ok THEN Fault
         ELSE /\ phase' = "codes" /\ bp' = t.bp
              /\ lit' = t.lit /\ dst' = t.dst /\ nodst' = t.nodst
              /\ UNCHANGED << final, kind >>

-----------------------------------------------------------------------------
(* One code at bit `at`: what ("bad" if it is malformed or cut short, "eob",   *)
(* "lit", "ref"), code, bp after it, odd; odd marks the second way to write   *)
(* length 258 (symbol 284 with all extra bits set).                           *)
CodeAt(in, avail, at) ==
  LET bad == [what |-> "bad", code |-> 0, bp |-> at, odd |-> FALSE]
      d   == DecodeSym(in, avail, at, lit)
  IN
  IF ~ d.ok THEN bad
  ELSE IF d.sym < 256 THEN [what |-> "lit", code |-> d.sym, bp |-> d.bp, odd |-> FALSE]
  ELSE IF d.sym = 256 THEN [what |-> "eob", code |-> 0, bp |-> d.bp, odd |-> FALSE]
  ELSE IF d.sym > 285 \/ nodst THEN bad
  ELSE
  LET le == LengthExtra[d.sym - 256] IN
  IF d.bp + le > avail THEN bad
  ELSE
  LET n == LengthOf(d.sym, Number(in, d.bp, le))
      e == DecodeSym(in, avail, d.bp + le, dst)
  IN
  IF ~ e.ok \/ e.sym > 29 THEN bad
  ELSE
  LET de == DistExtra[e.sym + 1] IN
  IF e.bp + de > avail THEN bad
  ELSE [what |-> "ref", code |-> RefCode(n, DistOf(e.sym, Number(in, e.bp, de))),
        bp |-> e.bp + de, odd |-> d.sym = 284 /\ n = 258]

Code(in, avail) ==
  /\ phase = "codes"
  /\ \E c \in {CodeAt(in, avail, bp)} :
         IF c.what = "bad" THEN Fault
         ELSE IF c.what = "eob" THEN NextBlock(c.bp)
         ELSE /\ bp' = c.bp
              /\ UNCHANGED << phase, final, lit, dst, nodst, kind >>

-----------------------------------------------------------------------------
(* After the final block: zero padding up to the byte boundary               *)
Trailer(in, avail) ==
  /\ phase = "trailer"
  /\ IF ~ ZeroPadding(in, bp) THEN Fault
     ELSE /\ phase' = "end" /\ bp' = bp + PadLen(bp)
          /\ UNCHANGED << final, lit, dst, nodst, kind >>

DNext(in, avail) ==
  \/ BlockHeader(in, avail) \/ Stored(in, avail) \/ Tables(in, avail)
  \/ Code(in, avail) \/ Trailer(in, avail)

=============================================================================
