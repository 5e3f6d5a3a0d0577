------------------------------- MODULE RezipMC ------------------------------
(* The whole system: an encoder writes any gzip file of a few blocks (any    *)
(* codes that decode to the content); the file is decoded (header, blocks,   *)
(* tables, codes, content); each block's codes are traced against any        *)
(* predictor - any choice of a valid prediction, made when it is first asked *)
(* for - and written as metadata bytes; the codes are forgotten. From the    *)
(* header, the content, each block's kind, length and table bits, the        *)
(* metadata bytes, the bytes after the DEFLATE data and the same predictor,  *)
(* the file is built again: it must be the file (C01), and the content what  *)
(* the encoder meant (C02, C06). Every file is printed, to be replayed.      *)
EXTENDS Encoder, GzipHeader, TraceMachine, TraceFormat, Json

CONSTANTS MaxBlocks, MaxContent, MaxGuess

Lits == {0, 144}
Datas == {<< >>, << 0 >>, << 144, 0, 0 >>}
Runs == {3, 4}
Only(n, f) == [i \in 1..n |-> IF (i - 1) \in DOMAIN f THEN f[i - 1] ELSE 0]
Skewed == TLCEval(Only(286, (0 :> 1) @@ (144 :> 2) @@ (255 :> 3) @@ (256 :> 4) @@ (257 :> 5) @@ (258 :> 5)))
ThreeDst == TLCEval(Only(30, (0 :> 1) @@ (1 :> 2) @@ (29 :> 2)))
LoneDst == << 1 >>
NoDst == << 0 >>
Tables2 == << << Skewed, ThreeDst, FALSE >>, << Skewed, LoneDst, TRUE >>, << Skewed, NoDst, TRUE >> >>
\* what the encoder writes for tables and symbols, worked out once
TabBits == TLCEval([t \in 1..3 |-> TableBits(Tables2[t][1], Tables2[t][2], Tables2[t][3])])
LitCode == TLCEval([t \in 0..3 |-> [x \in Lits \cup {256, 257, 258} |->
                                      CodeOf(IF t = 0 THEN FixedLitLens ELSE Tables2[t][1], x)]])
DstCode == TLCEval([t \in 0..3 |-> [x \in {0, 1, 2, 3} |->
                     LET dl == IF t = 0 THEN FixedDstLens ELSE Tables2[t][2]
                     IN  IF x < Len(dl) THEN CodeOf(dl, x) ELSE << >>]])
Headers == {<< 31, 139, 8, 0, 1, 2, 3, 4, 0, 3 >>, << 31, 139, 8, 8, 0, 0, 0, 0, 2, 255, 7, 0 >>}
After2 == << 9, 255 >>       \* whatever follows the DEFLATE data

VARIABLES
  mode,
  blocks, content,           \* what the encoder writes and what that means
  file,
  got, out,                  \* decoded: kinds, data or codes, table bits; content
  b, at, s, entries,         \* block being traced or rebuilt; position; prediction; its entries
  table,                     \* the predictor, as far as asked
  kept,                      \* what is kept of each block
  back, bits                 \* rebuilt: codes of the block, bits of the stream

dec == << hphase, hat, phase, bp, final, lit, dst, nodst, kind >>
enc == << blocks, content >>
tra == << b, at, s, entries, table, kept, back, bits >>
vars == << dec, enc, tra, mode, file, got, out >>

NoGuess == [guess |-> << >>, k |-> 0]
Init == /\ HInit /\ DInit(0) /\ mode = "write" /\ blocks = << >> /\ content = << >>
        /\ file = << >> /\ got = << >> /\ out = << >>
        /\ b = 1 /\ at = 0 /\ s = NoGuess /\ entries = << >> /\ table = {} /\ kept = << >>
        /\ back = << >> /\ bits = << >>

-----------------------------------------------------------------------------
(* Encoding                                                                  *)
Newest == blocks[Len(blocks)]
NewBlock(x) == Len(blocks) < MaxBlocks /\ blocks' = Append(blocks, x)
CanCode(x, code) == IF IsRef(code) THEN DstCode[x.t][DistSym(DistanceOf(code))] # << >> ELSE TRUE
\* the content after a code
Copied(c, code) ==
  IF ~ IsRef(code) THEN Append(c, code)
  ELSE FoldLeft(LAMBDA a, i : Append(a, a[Len(a) + 1 - DistanceOf(code)]), c, SubSeq(<< 1, 2, 3, 4 >>, 1, RunOf(code)))
AddCode(code) ==
  /\ blocks # << >> /\ Newest.k # 0
  /\ Len(content) + OutLen(code) <= MaxContent
  /\ IF IsRef(code) THEN DistanceOf(code) <= Len(content) ELSE TRUE
  /\ CanCode(Newest, code)
  /\ blocks' = [blocks EXCEPT ![Len(blocks)].c = Append(@, code)]
  /\ content' = Copied(content, code)

Write ==
  /\ mode = "write"
  /\ \/ \E d \in Datas : /\ Len(content) + Len(d) <= MaxContent
                         /\ NewBlock([k |-> 0, d |-> d]) /\ content' = content \o d
     \/ NewBlock([k |-> 1, t |-> 0, c |-> << >>]) /\ UNCHANGED content
     \/ \E t \in 1..3 : NewBlock([k |-> 2, t |-> t, c |-> << >>]) /\ UNCHANGED content
     \/ \E code \in Lits \cup {RefCode(n, d) : n \in Runs, d \in 1..MaxContent} : AddCode(code)
  /\ UNCHANGED << dec, tra, mode, file, got, out >>

CodeBitsOf(t, c) ==
  IF ~ IsRef(c) THEN LitCode[t][c]
  ELSE LET ls == LengthSym(RunOf(c))
           ds == DistSym(DistanceOf(c))
       IN  LitCode[t][ls] \o BitsOf(RunOf(c) - LengthBase[ls - 256], LengthExtra[ls - 256])
           \o DstCode[t][ds] \o BitsOf(DistanceOf(c) - DistBase[ds + 1], DistExtra[ds + 1])
Block(x, last, n) ==
  IF x.k = 0 THEN BlockBits(x, last, n)
  ELSE << last >> \o BitsOf(x.k, 2) \o (IF x.k = 2 THEN TabBits[x.t] ELSE << >>)
       \o FlatMap(x.c, LAMBDA c : CodeBitsOf(x.t, c)) \o LitCode[x.t][256]
Stream == FoldLeft(LAMBDA a, i : a \o Block(blocks[i], IF i = Len(blocks) THEN 1 ELSE 0, Len(a)),
                   << >>, [i \in 1..Len(blocks) |-> i])

Seal ==
  /\ mode = "write" /\ blocks # << >>
  /\ \E h \in Headers : file' = TLCEval(h \o Pack(Stream) \o After2)
  /\ mode' = "decode"
  /\ PrintT("CASE " \o ToJson([inp |-> file', out |-> content]))
  /\ UNCHANGED << dec, enc, tra, got, out >>

-----------------------------------------------------------------------------
(* Decoding                                                                  *)
Full == 8 * Len(file)
DecHeader ==
  /\ hphase \notin {"body", "bad"}
  /\ HNext(file, Len(file))
  /\ bp' = 8 * hat'
  /\ UNCHANGED << phase, final, lit, dst, nodst, kind, got, out >>
BitsBetween(from, to) == TLCEval([i \in 1..(to - from) |-> Bit(file, from + i - 1)])
DecBlock ==
  /\ hphase = "body"
  /\ DNext(file, Full)
  /\ CASE phase = "block"  -> got' = Append(got, [k |-> kind', d |-> << >>, tb |-> << >>]) /\ UNCHANGED out
       [] phase = "stored" -> \E x \in {StoredBody(file, Full)} : \E d \in {SubSeq(file, x.from + 1, x.from + x.len)} :
                                got' = [got EXCEPT ![Len(got)].d = d] /\ out' = out \o d
       [] phase = "tables" -> got' = [got EXCEPT ![Len(got)].tb = BitsBetween(bp, bp')] /\ UNCHANGED out
       [] phase = "codes"  -> \E x \in {CodeAt(file, Full, bp)} :
                                IF x.what \in {"lit", "ref"}
                                THEN got' = [got EXCEPT ![Len(got)].d = Append(@, x.code)] /\ out' = Copied(out, x.code)
                                ELSE UNCHANGED << got, out >>
       [] OTHER -> UNCHANGED << got, out >>
  /\ UNCHANGED << hphase, hat >>
Decode == /\ mode = "decode" /\ (DecHeader \/ DecBlock)
          /\ UNCHANGED << enc, tra, mode, file >>
Decoded == /\ mode = "decode" /\ phase = "end" /\ mode' = "trace"
           /\ UNCHANGED << dec, enc, tra, file, got, out >>

-----------------------------------------------------------------------------
(* Tracing: the predictor knows the content up to the block's end            *)
Size(x) == IF x.k = 0 THEN Len(x.d) ELSE FoldLeft(LAMBDA n, c : n + OutLen(c), 0, x.d)
EndOf(i) == FoldLeft(LAMBDA n, x : n + Size(x), 0, SubSeq(got, 1, i))

Good(p, end) ==
  {out[p + 1]} \cup
  {RefCode(n, d) : n \in {m \in Runs : p + m <= end}, d \in 1..p}
Right2(p, code) == IF ~ IsRef(code) THEN TRUE
                   ELSE \A j \in 1..RunOf(code) : out[p + j] = out[p + j - DistanceOf(code)]
Valid(p, end) == {x \in Good(p, end) : Right2(p, x)}
RECURSIVE GuessesFrom(_, _, _)
GuessesFrom(p, end, n) ==
  IF p >= end \/ n = 0 THEN {<< >>}
  ELSE {<< >>} \cup UNION {{<< x >> \o g : g \in GuessesFrom(p + OutLen(x), end, n - 1)} : x \in Valid(p, end)}
Guesses(p, end) == GuessesFrom(p, end, MaxGuess) \ {<< >>}

TraceStored ==
  /\ got[b].k = 0
  /\ kept' = Append(kept, [k |-> 0, n |-> Len(got[b].d), tb |-> << >>, meta |-> << >>])
  /\ b' = b + 1 /\ at' = at + Len(got[b].d)
  /\ UNCHANGED << s, entries, table >>
TraceCode ==
  /\ got[b].k # 0 /\ Len(entries) < Len(got[b].d)
  /\ \E code \in {got[b].d[Len(entries) + 1]} :
     \E g \in (IF NeedsNew(s) THEN Guesses(at, EndOf(b)) ELSE {<< >>}) :
     \E f \in {Fresh(s, g)} :
       /\ table' = IF NeedsNew(s) THEN table \cup {<< b, SubSeq(got[b].d, 1, Len(entries)), g >>} ELSE table
       /\ entries' = Append(entries, Traced(f, code))
       /\ s' = After(f, Predicted(f) = code)
       /\ at' = at + OutLen(code)
  /\ UNCHANGED << b, kept >>
TraceEnd ==
  /\ got[b].k # 0 /\ Len(entries) = Len(got[b].d)
  /\ kept' = Append(kept, [k |-> got[b].k, n |-> Size(got[b]), tb |-> got[b].tb,
                           meta |-> Written(FoldLeft(AddEntry, << >>, entries))])
  /\ b' = b + 1 /\ entries' = << >> /\ s' = NoGuess
  /\ UNCHANGED << at, table >>
Trace == /\ mode = "trace" /\ b <= Len(got) /\ (TraceStored \/ TraceCode \/ TraceEnd)
         /\ UNCHANGED << dec, enc, mode, file, got, out, back, bits >>
Forget == /\ mode = "trace" /\ b > Len(got)
          /\ mode' = "load" /\ b' = 1 /\ at' = 0 /\ s' = NoGuess /\ entries' = << >>
          /\ UNCHANGED << dec, enc, file, got, out, table, kept, back, bits >>

-----------------------------------------------------------------------------
(* Rebuilding, from hat and file's ends (header, what follows), out, kept    *)
(* and table alone                                                           *)
Flat(tr) == FoldLeft(LAMBDA a, e : IF e < 0 THEN a \o [i \in 1..(-e) |-> Right] ELSE Append(a, e), << >>, tr)
ReadMeta(in) ==
  LET r == FoldLeft(LAMBDA a, i : IF a.st = "run" THEN Record(in, -1, a) ELSE a, Start, [i \in 1..(Len(in) + 1) |-> i])
  IN  [st |-> r.st, tr |-> Flat(r.tr)]
\* the bits of a symbol's code, from the code as decoded
SymBits(t, sym) ==
  LET j == (CHOOSE x \in 1..Len(t.sym) : t.sym[x] = sym) - 1
      l == CHOOSE x \in 1..MaxLen : t.index[x] <= j /\ j < t.index[x] + t.cnt[x]
      v == t.code[l] + (j - t.index[l])
  IN  [i \in 1..l |-> (v \div TwoTo(l - i)) % 2]
\* the tables, read from their own bits: three header bits first, as TableBody counts from bp
\* (here: at bit 0 of a sequence of their own)
TablesOf(in, avail) ==
  LET
      hlit  == Number(in, 0, 5) + 257
      hdist == Number(in, 5, 5) + 1
      hclen == Number(in, 10, 4) + 4
      cl == TLCEval([i \in 1..19 |->
               LET k == CLPlace[i] IN IF k <= hclen THEN Number(in, 14 + 3 * (k - 1), 3) ELSE 0])
      lens == ReadLens(in, avail, 14 + 3 * hclen, CodeFrom(cl), hlit + hdist).lens
  IN  [lit |-> CodeFrom(SubSeq(lens, 1, hlit)), dst |-> CodeFrom(SubSeq(lens, hlit + 1, hlit + hdist))]
CodeBits2(code, lt, dt) ==
  IF ~ IsRef(code) THEN SymBits(lt, code)
  ELSE LET ls == LengthSym(RunOf(code))
           ds == DistSym(DistanceOf(code))
       IN  SymBits(lt, ls) \o BitsOf(RunOf(code) - LengthBase[ls - 256], LengthExtra[ls - 256])
           \o SymBits(dt, ds) \o BitsOf(DistanceOf(code) - DistBase[ds + 1], DistExtra[ds + 1])

FinalBit == IF b = Len(kept) THEN 1 ELSE 0
Load ==      \* the next block's metadata
  /\ mode = "load" /\ b <= Len(kept)
  /\ IF kept[b].k = 0
     THEN \E d \in {SubSeq(out, at + 1, at + kept[b].n)} :
            /\ bits' = bits \o BlockBits([k |-> 0, d |-> d], FinalBit, Len(bits))
            /\ b' = b + 1 /\ at' = at + kept[b].n
            /\ UNCHANGED << mode, entries >>
     ELSE \E r \in {ReadMeta(kept[b].meta)} :
            /\ Assert(r.st = "ok", "metadata not read")
            /\ entries' = r.tr /\ mode' = "restore"
            /\ bits' = bits \o << FinalBit >> \o BitsOf(kept[b].k, 2) \o kept[b].tb
            /\ UNCHANGED << b, at >>
  /\ s' = NoGuess /\ back' = << >>
  /\ UNCHANGED << dec, enc, file, got, out, table, kept >>

Asked == {t \in table : t[1] = b /\ t[2] = back}
Restore ==
  /\ mode = "restore" /\ Len(back) < Len(entries)
  /\ NeedsNew(s) => Asked # {}
  /\ \E f \in {Fresh(s, IF NeedsNew(s) THEN (CHOOSE t \in Asked : TRUE)[3] ELSE << >>)} :
     \E e \in {entries[Len(back) + 1]} :
     \E code \in {Restored(f, e, out[at + 1])} :
       /\ back' = Append(back, code) /\ at' = at + OutLen(code)
       /\ s' = After(f, e = Right)
  /\ UNCHANGED << dec, enc, mode, file, got, out, b, entries, table, kept, bits >>
Emit ==
  /\ mode = "restore" /\ Len(back) = Len(entries)
  /\ \E in \in {TLCEval(Pack(kept[b].tb))} :
     \E t \in {IF kept[b].k = 1 THEN [lit |-> FixedLit, dst |-> FixedDst] ELSE TablesOf(in, Len(kept[b].tb))} :
       bits' = bits \o FlatMap(back, LAMBDA x : CodeBits2(x, t.lit, t.dst)) \o SymBits(t.lit, 256)
  /\ mode' = "load" /\ b' = b + 1
  /\ UNCHANGED << dec, enc, file, got, out, at, s, entries, table, kept, back >>
Rebuilt == SubSeq(file, 1, hat) \o Pack(bits) \o SubSeq(file, bp \div 8 + 1, Len(file))
Finish == /\ mode = "load" /\ b > Len(kept)
          /\ mode' = "done" /\ UNCHANGED << dec, enc, tra, file, got, out >>

Next == Write \/ Seal \/ Decode \/ Decoded \/ Trace \/ Forget \/ Load \/ Restore \/ Emit \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Sound == phase # "fault" /\ hphase # "bad"
Decoding == /\ IsPrefix(out, content)
            /\ phase = "end" => out = content /\ Len(got) = Len(blocks)
\* the sum of the parts is the whole, and nothing gets stuck on the way
Whole == mode = "done" => Rebuilt = file
\* the predictor is asked again only what it was asked before
Served == (mode = "restore" /\ Len(back) < Len(entries) /\ NeedsNew(s)) => Cardinality(Asked) = 1
\* each block's metadata is read back as what was written: the codes restored are those decoded
Codes == mode = "restore" => IsPrefix(back, got[b].d)
\* what is kept of a block is no more than kind, length, tables and metadata: the same content
\* by the same predictions gives the same (nothing of the codes is in it otherwise)
AllRight == \A i \in 1..Len(kept) : kept[i].k # 0 /\ kept[i].n > 0 =>
              (kept[i].meta # << >>)
=============================================================================
