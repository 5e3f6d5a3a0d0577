------------------------------ MODULE Huffman -------------------------------
(* Canonical prefix codes (RFC 1951, 3.2.2) and the length and distance      *)
(* alphabets (3.2.5), independent of any bit stream.                         *)
EXTENDS Bits, FiniteSets, TLC

MaxLen == 15
Lengths == << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 >>

\* How many of the code lengths `lens` are l.
CountLen(lens, l) == Len(SelectSeq(lens, LAMBDA x : x = l))

\* Symbols (0-based) of length l, ascending.
SymbolsOf(lens, l) ==
  SelectSeq([i \in 1..Len(lens) |-> i - 1], LAMBDA s : lens[s + 1] = l)

\* What is left of the code space after all codes, in units of 2^-15;
\* negative as soon as it is over-full at any length.
Left(cnt) ==
  FoldLeft(LAMBDA left, l : IF left < 0 THEN left ELSE left * 2 - cnt[l],
           1, Lengths)

\* A code: number of symbols per length, the symbols in code order, and
\* whether it is complete (every bit string decodes). The code value of a
\* symbol is determined by these, see CodeOf. Also the first code of each length, the place of its
\* symbol, and the end of that length's codes as a 15-bit window (see DecodeSym).
CodeFrom(lens) ==
  LET by  == FoldLeft(LAMBDA acc, i : IF lens[i] = 0 THEN acc
                                      ELSE [acc EXCEPT ![lens[i]] = Append(@, i - 1)],
                      << << >>, << >>, << >>, << >>, << >>, << >>, << >>, << >>, << >>, << >>,
                         << >>, << >>, << >>, << >>, << >> >>,
                      TLCEval([i \in 1..Len(lens) |-> i]))
      cnt == TLCEval([l \in 1..MaxLen |-> Len(by[l])])
      at  == FoldLeft(LAMBDA a, l : [code  |-> Append(a.code, a.next),
                                     index |-> Append(a.index, a.i),
                                     limit |-> Append(a.limit, (a.next + cnt[l]) * TwoTo(MaxLen - l)),
                                     next  |-> 2 * (a.next + cnt[l]),
                                     i     |-> a.i + cnt[l]],
                      [code |-> << >>, index |-> << >>, limit |-> << >>, next |-> 0, i |-> 0],
                      Lengths)
  IN  [cnt |-> cnt, sym |-> FlattenSeq(by), full |-> Left(cnt) = 0,
       code |-> at.code, index |-> at.index, limit |-> at.limit]

\* The same, by definition (the models check that they agree).
CodeFromDef(lens) ==
  LET cnt == [l \in 1..MaxLen |-> CountLen(lens, l)]
      sym == FoldLeft(LAMBDA acc, l : IF cnt[l] = 0 THEN acc ELSE acc \o SymbolsOf(lens, l),
                      << >>, [l \in 1..MaxLen |-> l])
  IN  [cnt |-> cnt, sym |-> sym, full |-> Left(cnt) = 0]

\* Decode one symbol of complete code t at bit position bp, knowing that only
\* bits below `avail` exist. [ok, sym, bp].
DecodeSym(in, avail, bp, t) ==
  LET v == Window15(in, bp)
      l == CHOOSE k \in 1..MaxLen : v < t.limit[k]
  IN  IF bp + l > avail THEN [ok |-> FALSE, sym |-> 0, bp |-> bp]
      ELSE [ok |-> TRUE, bp |-> bp + l,
            sym |-> t.sym[t.index[l] + (v \div Pow2[MaxLen - l + 1]) - t.code[l] + 1]]

\* The same, bit by bit.
RECURSIVE DecodeFrom(_, _, _, _, _, _, _, _)
DecodeFrom(in, avail, bp, t, l, code, first, index) ==
  IF bp >= avail \/ l > MaxLen THEN [ok |-> FALSE, sym |-> 0, bp |-> bp]
  ELSE LET c == code + Bit(in, bp)
           n == t.cnt[l]
       IN IF c - n < first
          THEN [ok |-> TRUE, sym |-> t.sym[index + (c - first) + 1], bp |-> bp + 1]
          ELSE DecodeFrom(in, avail, bp + 1, t, l + 1, 2 * c, 2 * (first + n), index + n)

DecodeSymDef(in, avail, bp, t) == DecodeFrom(in, avail, bp, t, 1, 0, 0, 0)

\* The bits (first bit first) of the code of symbol s under lengths `lens`;
\* << >> if it has none. The definition of 3.2.2: codes of one length are
\* consecutive, ascending by symbol, starting after all shorter ones.
FirstCode(lens, l) ==
  FoldLeft(LAMBDA code, k : 2 * (code + CountLen(lens, k)), 0, [k \in 1..(l - 1) |-> k])

CodeOf(lens, s) ==
  LET l == lens[s + 1]
      rank == Cardinality({i \in 1..s : lens[i] = l})
      v == FirstCode(lens, l) + rank
  IN  IF l = 0 THEN << >>
      ELSE [i \in 1..l |-> (v \div TwoTo(l - i)) % 2]

-----------------------------------------------------------------------------
(* Run lengths: symbol 257..285, extra bits, first length.                   *)
LengthBase  == << 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59,
                  67, 83, 99, 115, 131, 163, 195, 227, 258 >>
LengthExtra == << 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3,
                  4, 4, 4, 4, 5, 5, 5, 5, 0 >>
DistBase    == << 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769,
                  1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577 >>
DistExtra   == << 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8,
                  9, 9, 10, 10, 11, 11, 12, 12, 13, 13 >>

LengthSymbols == 257..285
DistSymbols   == 0..29

LengthOf(sym, extra) == LengthBase[sym - 256] + extra
DistOf(sym, extra)   == DistBase[sym + 1] + extra

\* The one encoding RFC 1951 assigns: the largest symbol whose base is not above.
LengthSym(n) ==
  LET ks == {k \in 1..29 : LengthBase[k] <= n}
  IN  256 + (CHOOSE k \in ks : \A j \in ks : j <= k)
DistSym(d) ==
  LET ks == {k \in 1..30 : DistBase[k] <= d}
  IN  (CHOOSE k \in ks : \A j \in ks : j <= k) - 1

FixedLitLens == [i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9
                                  ELSE IF i <= 280 THEN 7 ELSE 8]
FixedDstLens == [i \in 1..32 |-> 5]
FixedLit == CodeFrom(FixedLitLens)
FixedDst == CodeFrom(FixedDstLens)
=============================================================================
