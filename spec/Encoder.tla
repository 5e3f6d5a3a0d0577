------------------------------ MODULE Encoder -------------------------------
(* Writing blocks as DEFLATE bits, by the definitions of RFC 1951 (Huffman). *)
(* A block is [k |-> 0, d |-> bytes], [k |-> 1, c |-> codes] or              *)
(* [k |-> 2, ll |-> literal lengths, dl |-> distance lengths,                *)
(*  rep |-> may use the repeat symbols, c |-> codes].                        *)
EXTENDS Deflate

\* The code-length code used for table descriptions: all 19 symbols.
CLLens == << 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5 >>

RunAt(s, i) ==   \* how many elements from i on equal s[i]
  FoldLeft(LAMBDA a, j : IF a = j - i /\ s[j] = s[i] THEN a + 1 ELSE a, 0,
           SubSeq(UpTo512, i, Len(s)))

\* Symbols (with extra bits) that describe the lengths s; repeats where possible if rep.
Describe(s, rep) ==
  FoldLeft(LAMBDA a, i :
    IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
    ELSE LET n == RunAt(s, i) IN
      IF ~ rep \/ n < 3 THEN [a EXCEPT !.out = Append(@, << s[i], 0, 0 >>)]
      ELSE IF s[i] = 0 /\ n >= 11 THEN
        LET k == MinOf(n, 138) IN [skip |-> k - 1, out |-> Append(a.out, << 18, k - 11, 7 >>)]
      ELSE IF s[i] = 0 THEN
        LET k == MinOf(n, 10) IN [skip |-> k - 1, out |-> Append(a.out, << 17, k - 3, 3 >>)]
      ELSE IF n >= 4 THEN
        LET k == MinOf(n - 1, 6)
        IN [skip |-> k, out |-> a.out \o << << s[i], 0, 0 >>, << 16, k - 3, 2 >> >>]
      ELSE [a EXCEPT !.out = Append(@, << s[i], 0, 0 >>)],
    [skip |-> 0, out |-> << >>], SubSeq(UpTo512, 1, Len(s))).out

FlatMap(s, F(_)) == FoldLeft(LAMBDA a, x : a \o F(x), << >>, s)

LastNonZero(s) == FoldLeft(LAMBDA a, i : IF s[i] # 0 THEN i ELSE a, 0, SubSeq(UpTo512, 1, Len(s)))

TableBits(ll, dl, rep) ==
  LET nl == MaxOf(257, LastNonZero(ll))
      nd == MaxOf(1, LastNonZero(dl))
  IN  BitsOf(nl - 257, 5) \o BitsOf(nd - 1, 5) \o BitsOf(15, 4)
      \o FlatMap(CLOrder, LAMBDA s : BitsOf(CLLens[s + 1], 3))
      \o FlatMap(Describe(SubSeq(ll, 1, nl) \o SubSeq(dl, 1, nd), rep),
                 LAMBDA d : CodeOf(CLLens, d[1]) \o BitsOf(d[2], d[3]))

CodeBits(c, ll, dl) ==
  IF ~ IsRef(c) THEN CodeOf(ll, c)
  ELSE LET ls == LengthSym(RunOf(c))
           ds == DistSym(DistanceOf(c))
       IN  CodeOf(ll, ls) \o BitsOf(RunOf(c) - LengthBase[ls - 256], LengthExtra[ls - 256])
           \o CodeOf(dl, ds) \o BitsOf(DistanceOf(c) - DistBase[ds + 1], DistExtra[ds + 1])

CodesBits(cs, ll, dl) == FlatMap(cs, LAMBDA c : CodeBits(c, ll, dl)) \o CodeOf(ll, 256)

\* What block b adds to `n` bits already written.
BlockBits(b, last, n) ==
  << last >> \o BitsOf(b.k, 2) \o
  (IF b.k = 0 THEN [i \in 1..PadLen(n + 3) |-> 0] \o BitsOf(Len(b.d), 16) \o BitsOf(65535 - Len(b.d), 16)
                   \o FlatMap(b.d, LAMBDA x : BitsOf(x, 8))
   ELSE IF b.k = 1 THEN CodesBits(b.c, FixedLitLens, FixedDstLens)
   ELSE TableBits(b.ll, b.dl, b.rep) \o CodesBits(b.c, b.ll, b.dl))

\* A whole stream, as bits.
StreamBits(blocks) ==
  FoldLeft(LAMBDA a, i : a \o BlockBits(blocks[i], IF i = Len(blocks) THEN 1 ELSE 0, Len(a)),
           << >>, [i \in 1..Len(blocks) |-> i])

Pack(bits) ==
  [i \in 1..((Len(bits) + 7) \div 8) |->
     FoldLeft(LAMBDA a, j : IF 8 * (i - 1) + j <= Len(bits) THEN a + bits[8 * (i - 1) + j] * TwoTo(j - 1) ELSE a,
              0, << 1, 2, 3, 4, 5, 6, 7, 8 >>)]
=============================================================================
