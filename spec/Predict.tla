------------------------------- MODULE Predict ------------------------------
(* What each preset predicts: a function of the known data and the codes so  *)
(* far. K is as in Refs; i is the number of codes processed.                 *)
EXTENDS Refs

IsReference(code) == code >= 65536
Run(code) == code \div 65536
Dist(code) == code % 65536
Emitted(code) == IF IsReference(code) THEN Run(code) ELSE 1

(* quit: a run this long ends the search; tries: true matches tried;         *)
(* hide: positions strictly inside references longer than this are hidden    *)
(* (0: never); lim: same-hash positions considered; far: drop threes beyond  *)
(* 4096; look: how many positions ahead.                                     *)
Level(quit, tries, hide, lim, far, look, apathetic, abort) ==
  [quit |-> quit, tries |-> tries, hide |-> hide, lim |-> lim, far |-> far, look |-> look,
   apathetic |-> apathetic, abort |-> abort]
Presets ==
  [g1 |-> Level(8, 4, 4, 4, FALSE, "greedy", -1, -1),
   g2 |-> Level(16, 8, 5, 5, FALSE, "greedy", -1, -1),
   g3 |-> Level(32, 32, 6, 6, FALSE, "greedy", -1, -1),
   g4 |-> Level(16, 16, 0, 65535, TRUE, "greedy", 4, 4),
   g5 |-> Level(32, 32, 0, 65535, TRUE, "greedy", 8, 16),
   g6 |-> Level(128, 128, 0, 65535, TRUE, "greedy", 8, 16),
   g7 |-> Level(128, 256, 0, 65535, TRUE, "greedy", 8, 32),
   g8 |-> Level(258, 1024, 0, 65535, TRUE, "greedy", 32, 128),
   g9 |-> Level(258, 4096, 0, 65535, TRUE, "greedy", 32, 258),
   spicy |-> Level(258, 4096, 0, 65535, TRUE, "three", 32, 258),
   \* the remaining lookahead, which no public preset uses, on the levels' parameters
   lazy1 |-> Level(8, 4, 4, 4, FALSE, "lazy", -1, -1),
   lazy3 |-> Level(32, 32, 6, 6, FALSE, "lazy", -1, -1),
   lazy4 |-> Level(16, 16, 0, 65535, TRUE, "lazy", 4, 4),
   lazy5 |-> Level(32, 32, 0, 65535, TRUE, "lazy", 8, 16),
   lazy6 |-> Level(128, 128, 0, 65535, TRUE, "lazy", 8, 16),
   lazy9 |-> Level(258, 4096, 0, 65535, TRUE, "lazy", 32, 258)]

\* Is q strictly inside a processed reference longer than h?
HiddenAt(K, i, q, h) ==
  h > 0 /\ q >= K.np /\ q - K.np < Len(K.cv)
  /\ LET j == K.cv[q - K.np + 1] IN j <= i /\ K.st[j] < q /\ IsReference(K.codes[j]) /\ Run(K.codes[j]) > h

\* The first strictly longest of the candidates (0: none), the search ending at the first
\* that reaches `quit`.
LongestDef(cands, quit) ==
  FoldLeft(LAMBDA b, r : IF b >= 65536 * quit \/ Run(r) <= Run(b) THEN b ELSE r, 0, cands)

SearchDef(K, i, p, ps, tries) ==
  LET cs == Candidates(K.win, ChainDef(K.win, p), p, ps.lim, LAMBDA q : HiddenAt(K, i, q, ps.hide))
  IN  IF ~ HasThree(K.win, p) \/ p = 0 THEN 0
      ELSE LongestDef(SubSeq(cs, 1, MinOf(tries, Len(cs))), ps.quit)

\* The same in one pass over the chain (PredictMC compares the two).
Search(K, i, p, ps, tries) ==
  IF ~ HasThree(K.win, p) \/ p = 0 THEN 0
  ELSE
    LET most == MinOf(MaxRun, Len(K.win) - p)
        Try(a, q) ==
          IF a.stop \/ (ps.hide > 0 /\ HiddenAt(K, i, q, ps.hide)) THEN a
          ELSE IF a.seen = ps.lim \/ p - q > MaxDist THEN [a EXCEPT !.stop = TRUE]
          ELSE IF ~ SameThree(K.win, p, q) THEN [a EXCEPT !.seen = @ + 1]
          ELSE IF Run(a.best) + 1 <= most
                  /\ SubSeq(K.win, q + 1, q + Run(a.best) + 1) = SubSeq(K.win, p + 1, p + Run(a.best) + 1)
          THEN LET b == RunAt(K.win, p, q) IN
               [seen |-> a.seen + 1, tried |-> a.tried + 1, best |-> 65536 * b + (p - q),
                stop |-> b >= ps.quit \/ a.tried + 1 = tries]
          ELSE [a EXCEPT !.seen = @ + 1, !.tried = @ + 1, !.stop = a.tried + 1 = tries]
    IN  IF tries = 0 THEN 0
        ELSE FoldLeft(Try, [seen |-> 0, tried |-> 0, best |-> 0, stop |-> FALSE], Chain(K, p)).best

Choice(K, i, p, ps, tries) ==
  LET b == Search(K, i, p, ps, tries)
  IN  IF b # 0 /\ ps.far /\ Run(b) = 3 /\ Dist(b) > 4096 THEN 0 ELSE b

Lit(K, p) == K.win[p + 1]

Greedy(K, i, p, ps) ==
  LET b == Choice(K, i, p, ps, ps.tries) IN IF b = 0 THEN << Lit(K, p) >> ELSE << b >>

ThreeStep(K, i, p, ps) ==
  LET a == Choice(K, i, p, ps, ps.tries) IN
  IF a = 0 THEN << Lit(K, p) >>
  ELSE IF Run(a) > 3 THEN << a >>
  ELSE LET b0 == Choice(K, i, p + 1, ps, ps.tries)
           b == IF Run(b0) >= 4 THEN b0 ELSE 0
           d0 == Choice(K, i, p + 2, ps, ps.tries)
           d == IF Run(d0) >= 5 THEN d0 ELSE 0
       IN  IF d # 0 /\ (b = 0 \/ Run(d) > Run(b)) THEN << Lit(K, p), Lit(K, p + 1), d >>
           ELSE IF b # 0 THEN << Lit(K, p), b >>
           ELSE << a >>

\* The search with a match of length `run` in hand (0: none).
Better(K, i, p, ps, run) ==
  IF run > 0 /\ ps.abort >= 0 /\ run >= ps.abort THEN 0
  ELSE Choice(K, i, p, ps, IF run > 0 /\ ps.apathetic >= 0 /\ run > ps.apathetic
                           THEN ps.tries \div 4 ELSE ps.tries)

\* Give a reference up for a strictly longer one at the next position, and again.
RECURSIVE Lazy(_, _, _, _, _, _)
Lazy(K, i, p, ps, cur, out) ==
  LET next == IF p + 1 < Len(K.win) THEN Better(K, i, p + 1, ps, Run(cur)) ELSE 0
  IN  IF Run(next) > Run(cur) THEN Lazy(K, i, p + 1, ps, next, Append(out, Lit(K, p)))
      ELSE Append(out, cur)
LazyGuess(K, i, p, ps) ==
  LET a == Choice(K, i, p, ps, ps.tries) IN
  IF a = 0 THEN << Lit(K, p) >> ELSE Lazy(K, i, p, ps, a, << >>)

Prediction(K, i, p, ps) ==
  IF ps.look = "greedy" THEN Greedy(K, i, p, ps)
  ELSE IF ps.look = "three" THEN ThreeStep(K, i, p, ps)
  ELSE LazyGuess(K, i, p, ps)

-----------------------------------------------------------------------------
(* Any prediction must be a correct encoding of what is ahead.               *)
CorrectFrom(W, p, guess) ==
  /\ guess # << >>
  /\ FoldLeft(LAMBDA at, g :
       IF at < 0 THEN at
       ELSE IF ~ IsReference(g) THEN (IF at < Len(W) /\ W[at + 1] = g THEN at + 1 ELSE -1)
       ELSE IF /\ Run(g) \in 3..MaxRun /\ Dist(g) \in 1..MaxDist /\ Dist(g) < at
               /\ at + Run(g) <= Len(W)
               /\ Run(g) = RunAt(W, at, at - Dist(g))
            THEN at + Run(g) ELSE -1,
       p, guess) >= 0
=============================================================================
