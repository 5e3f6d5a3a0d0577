-------------------------------- MODULE Refs --------------------------------
(* Back-references possible at a position of the known data.                 *)
(*                                                                           *)
(* A case K is a record with                                                 *)
(*   win   the known data: history, then the data of the block               *)
(*   np    length of the history                                             *)
(*   codes the codes being processed; st the position each starts at; cv the *)
(*         number of the code that covers each position of the data          *)
(*   ord, rank, be   the positions sorted by hash and nearness: an index,    *)
(*         which says nothing that win does not (IndexOk)                    *)
(* Positions are 0-based; a code is a literal's byte or 65536*run+distance.  *)
EXTENDS Bits, TLC, Bitwise

Hash3(a, b, c) == (((a % 32) * 1024) ^^ (b * 32)) ^^ c
HashAt(W, p) == Hash3(W[p + 1], W[p + 2], W[p + 3])

MaxDist == 32768
MaxRun == 258

\* Length of the longest match of what is ahead of p with what is ahead of q < p.
RunAt(W, p, q) ==
  LET most == MinOf(MaxRun, Len(W) - p)
      Ext(r, s) == IF r + s <= most /\ SubSeq(W, p + r + 1, p + r + s) = SubSeq(W, q + r + 1, q + r + s)
                   THEN r + s ELSE r
  IN Ext(Ext(Ext(Ext(Ext(Ext(Ext(Ext(Ext(0, 256), 128), 64), 32), 16), 8), 4), 2), 1)

\* what it means: as far as the bytes agree
RECURSIVE RunDef(_, _, _, _)
RunDef(W, p, q, n) ==
  IF n < MaxRun /\ p + n < Len(W) /\ W[p + n + 1] = W[q + n + 1] THEN RunDef(W, p, q, n + 1) ELSE n

\* Positions before p, other than 0, with p's hash, nearest first.
ChainDef(W, p) == SelectSeq([i \in 1..(p - 1) |-> p - i], LAMBDA q : HashAt(W, q) = HashAt(W, p))

\* The same, by the index.
Chain(K, p) == SubSeq(K.ord, K.rank[p + 1] + 1, K.be[K.rank[p + 1]])

\* The index is right: ord lists the positions 1.. that have three bytes, by hash and then
\* nearest (largest) first; rank is its inverse, be the end of each hash's part.
IndexOk(K) ==
  \E n \in {IF Len(K.win) >= 3 THEN Len(K.win) - 3 ELSE 0} :
    /\ Len(K.ord) = n /\ Len(K.be) = n /\ Len(K.rank) = (IF n = 0 THEN 0 ELSE n + 1)
    /\ \A i \in 1..n : K.ord[i] \in 1..n /\ K.rank[K.ord[i] + 1] = i
    /\ \E H \in {TLCEval([i \in 1..n |-> HashAt(K.win, K.ord[i])])} :
         \A i \in 1..n : IF i = n THEN K.be[i] = i
                         ELSE IF H[i] = H[i + 1] THEN K.be[i] = K.be[i + 1] /\ K.ord[i] > K.ord[i + 1]
                         ELSE K.be[i] = i /\ H[i] < H[i + 1]

HasThree(W, p) == p + 2 < Len(W)
SameThree(W, p, q) == SubSeq(W, p + 1, p + 3) = SubSeq(W, q + 1, q + 3)

\* The candidates at p: of the chain, what Hidden leaves; of that the first `lim`; of those
\* the ones near enough that really match.
Candidates(W, chain, p, lim, Hidden(_)) ==
  LET seen == SelectSeq(chain, LAMBDA q : ~ Hidden(q))
      few == SubSeq(seen, 1, MinOf(lim, Len(seen)))
      real == SelectSeq(few, LAMBDA q : p - q <= MaxDist /\ SameThree(W, p, q))
  IN [i \in 1..Len(real) |-> 65536 * RunAt(W, p, real[i]) + (p - real[i])]
=============================================================================
