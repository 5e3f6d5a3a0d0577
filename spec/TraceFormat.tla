----------------------------- MODULE TraceFormat ----------------------------
(* Metadata as bytes. Entries are run-length coded: -n stands for a maximal  *)
(* run of n 'correct', 0 for 'literal', 65536*run + distance for a reference.*)
(* Bytes are little-endian 16-bit words w:                                   *)
(*   0: literal;  1..32768: reference at that distance, one more byte for    *)
(*   length - 3;  32768 + n: a run of n 'correct'.                           *)
EXTENDS Bits, TLC

CONSTANT FullRun      \* longest run one word can say: 32767

Word(w) == << w % 256, w \div 256 >>

Layout(entry) ==
  IF entry = 0 THEN Word(0)
  ELSE IF entry > 0 THEN Append(Word(entry % 65536), entry \div 65536 - 3)
  ELSE LET n == -entry
           full == (n - 1) \div FullRun
       IN FlattenSeq([i \in 1..(full + 1) |-> Word(32768 + (IF i <= full THEN FullRun ELSE n - full * FullRun))])

Written(entries) == FlattenSeq([i \in 1..Len(entries) |-> Layout(entries[i])])
Count(entries) == FoldLeft(LAMBDA n, e : IF e < 0 THEN n - e ELSE n + 1, 0, entries)

\* The reader: where it is, what it has, and whether it is at the end or has failed.
\* fail: the byte position at which the source reports an error (-1: it does not).
AddEntry(entries, e) ==
  IF e < 0 /\ Len(entries) > 0 /\ entries[Len(entries)] < 0
  THEN [entries EXCEPT ![Len(entries)] = @ + e] ELSE Append(entries, e)

Record(in, fail, r) ==
  LET avail == IF fail >= 0 THEN MinOf(fail, Len(in)) ELSE Len(in)
      left == avail - r.at
      w == in[r.at + 1] + 256 * in[r.at + 2]
  IN  IF left = 0 THEN [r EXCEPT !.st = IF fail >= 0 /\ fail <= Len(in) THEN "err" ELSE "ok"]
      ELSE IF left = 1 THEN [r EXCEPT !.st = "err"]
      ELSE IF w = 0 THEN [r EXCEPT !.at = @ + 2, !.tr = AddEntry(@, 0)]
      ELSE IF w > 32768 THEN [r EXCEPT !.at = @ + 2, !.tr = AddEntry(@, 32768 - w)]
      ELSE IF left = 2 THEN [r EXCEPT !.st = "err"]
      ELSE [r EXCEPT !.at = @ + 3, !.tr = AddEntry(@, 65536 * (in[r.at + 3] + 3) + w)]
Start == [at |-> 0, tr |-> << >>, st |-> "run"]
=============================================================================
