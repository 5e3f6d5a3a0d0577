------------------------------ MODULE CodecMC -------------------------------
(* Every stream of up to MaxBlocks blocks of up to MaxCodes codes over small *)
(* alphabets: the decoder gives back exactly the blocks the encoder wrote    *)
(* (C02, C05), having used exactly the stream's bits, whatever follows; the  *)
(* stream cut short anywhere is a fault (C03). Each stream is printed with   *)
(* its blocks, to be replayed in the real code.                              *)
EXTENDS Encoder, Json

CONSTANTS MaxBlocks, MaxCodes

Lits == {0, 144, 255}
Refs == {RefCode(3, 1), RefCode(10, 4), RefCode(257, 32768), RefCode(258, 24577)}
Datas == {<< >>, << 1 >>, << 2, 255, 3 >>}

Only(n, f) == [i \in 1..n |-> IF (i - 1) \in DOMAIN f THEN f[i - 1] ELSE 0]
\* one of everything in the alphabets, lengths 1 to 6
LongLit == TLCEval(Only(286, (0 :> 1) @@ (144 :> 2) @@ (255 :> 3) @@ (256 :> 4) @@ (257 :> 5) @@ (264 :> 6) @@ (284 :> 7) @@ (285 :> 7)))
EvenLit == TLCEval(Only(286, (0 :> 3) @@ (144 :> 3) @@ (255 :> 3) @@ (256 :> 3) @@ (257 :> 3) @@ (264 :> 3) @@ (284 :> 3) @@ (285 :> 3)))
FourDst == TLCEval(Only(30, (0 :> 1) @@ (3 :> 2) @@ (29 :> 2)))
LoneDst == TLCEval(Only(30, (29 :> 1)))
NoDst   == << 0 >>
Tables2 == {<< LongLit, FourDst, FALSE >>, << EvenLit, FourDst, TRUE >>,
            << LongLit, LoneDst, TRUE >>, << EvenLit, NoDst, TRUE >>}

CanCode(t, c) == IF ~ IsRef(c) THEN TRUE
                 ELSE Len(t[2]) > DistSym(DistanceOf(c)) /\ t[2][DistSym(DistanceOf(c)) + 1] # 0

VARIABLES
  mode,   \* "write" or "read"
  blocks, \* what is written
  in,     \* the bytes written
  got     \* what has been read

vars == << phase, bp, final, lit, dst, nodst, kind, mode, blocks, in, got >>
MCView == << mode, blocks, phase, bp, got >>

Init == /\ DInit(0) /\ mode = "write" /\ blocks = << >> /\ in = << >> /\ got = << >>

Newest == blocks[Len(blocks)]
AddBlock(b) == /\ Len(blocks) < MaxBlocks /\ blocks' = Append(blocks, b)
AddCode(x) == /\ blocks # << >> /\ Newest.k # 0 /\ Len(Newest.c) < MaxCodes
              /\ IF Newest.k = 1 THEN TRUE ELSE CanCode(<< Newest.ll, Newest.dl >>, x)
              /\ blocks' = [blocks EXCEPT ![Len(blocks)].c = Append(@, x)]

Write == /\ mode = "write"
         /\ \/ \E d \in Datas : AddBlock([k |-> 0, d |-> d])
            \/ AddBlock([k |-> 1, c |-> << >>])
            \/ \E t \in Tables2 : AddBlock([k |-> 2, ll |-> t[1], dl |-> t[2], rep |-> t[3], c |-> << >>])
            \/ \E x \in Lits \cup Refs : AddCode(x)
         /\ UNCHANGED << phase, bp, final, lit, dst, nodst, kind, mode, in, got >>

\* for the record: kind, data or codes, table bits are left to the reader
Plain(b) == IF b.k = 0 THEN << 0, b.d >> ELSE << b.k, b.c >>

Read == /\ mode = "write" /\ blocks # << >>
        /\ mode' = "read"
        /\ in' = TLCEval(Pack(StreamBits(blocks)))
        /\ PrintT("CASE " \o ToJson([inp |-> in', blocks |-> [i \in 1..Len(blocks) |-> Plain(blocks[i])]]))
        /\ UNCHANGED << phase, bp, final, lit, dst, nodst, kind, blocks, got >>

\* bytes after the stream must not matter: the reader sees 0xA5 0xFF after it
After == << 165, 255 >>
Seen == TLCEval(in \o After)
Full == 8 * Len(Seen)

AddGot(x) == got' = [got EXCEPT ![Len(got)] = << @[1], Append(@[2], x) >>]

Step ==
  /\ mode = "read" /\ phase \notin {"end", "fault"}
  /\ DNext(Seen, Full)
  /\ CASE phase = "stored" -> \E s \in {StoredBody(Seen, Full)} :
                                 got' = [got EXCEPT ![Len(got)] = << 0, SubSeq(Seen, s.from + 1, s.from + s.len) >>]
       [] phase = "block"  -> got' = Append(got, << kind', << >> >>)
       [] phase = "codes"  -> \E k \in {CodeAt(Seen, Full, bp)} :
                                 IF k.what \in {"lit", "ref"} THEN AddGot(k.code) ELSE UNCHANGED got
       [] OTHER -> UNCHANGED got
  /\ UNCHANGED << mode, blocks, in >>

Next == Write \/ Read \/ Step
Spec == Init /\ [][Next]_vars

\* The reader never faults, and at the end has exactly what was written.
NoFault == phase # "fault"
Prefix == \A i \in 1..Len(got) :
            /\ got[i][1] = Plain(blocks[i])[1]
            /\ IsPrefix(got[i][2], Plain(blocks[i])[2])
RoundTrip == phase = "end" => /\ got = [i \in 1..Len(blocks) |-> Plain(blocks[i])]
                              /\ bp = 8 * Len(in)
\* Needing bits that do not exist is a fault: with fewer bits than this step
\* uses, the step faults.
CutFaults == (mode = "read" /\ phase \in {"stored", "tables", "codes"}) =>
   LET used == CASE phase = "stored" -> StoredBody(Seen, Full).bp
                 [] phase = "tables" -> TableBody(Seen, Full).bp
                 [] phase = "codes" -> CodeAt(Seen, Full, bp).bp
   IN \A a \in MaxOf(bp, used - 20)..(used - 1) :
        CASE phase = "stored" -> ~ StoredBody(Seen, a).ok
          [] phase = "tables" -> ~ TableBody(Seen, a).ok
          [] phase = "codes" -> CodeAt(Seen, a, bp).what = "bad"
\* The quick definitions are the plain ones.
Definitions == (mode = "read" /\ phase = "codes") =>
   /\ DecodeSym(Seen, Full, bp, lit) = DecodeSymDef(Seen, Full, bp, lit)
   /\ Window15(Seen, bp) = FoldLeft(LAMBDA v, i : 2 * v + (IF bp + i < Full THEN Bit(Seen, bp + i) ELSE 0),
                                    0, << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14 >>)
   /\ \A n \in {0, 1, 7, 13, 16} : bp + n <= Full => Number(Seen, bp, n) = NumberDef(Seen, bp, n)
Progress == [][ mode = "read" => bp' >= bp /\ (bp' > bp \/ phase' # phase) ]_vars
=============================================================================
