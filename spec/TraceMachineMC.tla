--------------------------- MODULE TraceMachineMC ---------------------------
(* Tracing, then restoring, for every short data, every code sequence that   *)
(* decodes to it and every predictor: a predictor is any choice of a valid   *)
(* prediction for every codes-so-far it is asked about, made when it is      *)
(* first asked.                                                              *)
EXTENDS TraceMachine, FiniteSets, SequencesExt, Functions

CONSTANTS Alphabet, MaxLen, MaxGuess, MinRun

Ref(run, dist) == 65536 * run + dist
Emit(code) == IF IsRefCode(code) THEN code \div 65536 ELSE 1

\* Codes that are right for data at position p.
CodesAt(data, p) ==
  {data[p + 1]} \cup
  {Ref(n, d) : n \in {m \in MinRun..(Len(data) - p) : TRUE}, d \in 1..p}
Matches(data, p, code) ==
  IF ~ IsRefCode(code) THEN TRUE
  ELSE \A j \in 1..Emit(code) : data[p + j] = data[p + j - (code % 65536)]
Good(data, p) == {x \in CodesAt(data, p) : Matches(data, p, x)}

RECURSIVE GuessesFrom(_, _, _)
GuessesFrom(data, p, n) ==
  IF p >= Len(data) \/ n = 0 THEN {<< >>}
  ELSE {<< >>} \cup UNION {{<< x >> \o g : g \in GuessesFrom(data, p + Emit(x), n - 1)} : x \in Good(data, p)}
Guesses(data, p) == GuessesFrom(data, p, MaxGuess) \ {<< >>}

VARIABLES data, codes, pos,  \* codes so far and where they have got to
          s, entries,
          table,             \* the predictor, as far as asked: set of <<codes so far, prediction>>
          mode, back, bpos
vars == << data, codes, pos, s, entries, table, mode, back, bpos >>

Init == /\ data \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ codes = << >> /\ pos = 0 /\ s = [guess |-> << >>, k |-> 0] /\ entries = << >>
        /\ table = {} /\ mode = "trace" /\ back = << >> /\ bpos = 0

TraceOne ==
  /\ mode = "trace" /\ pos < Len(data)
  /\ \E g \in (IF NeedsNew(s) THEN Guesses(data, pos) ELSE {<< >>}), code \in Good(data, pos) :
       LET f == Fresh(s, g) IN
       /\ table' = IF NeedsNew(s) THEN table \cup {<< codes, g >>} ELSE table
       /\ entries' = Append(entries, Traced(f, code))
       /\ s' = After(f, Predicted(f) = code)
       /\ codes' = Append(codes, code) /\ pos' = pos + Emit(code)
  /\ UNCHANGED << data, mode, back, bpos >>

Turn == /\ mode = "trace" /\ pos = Len(data)
        /\ mode' = "restore" /\ s' = [guess |-> << >>, k |-> 0]
        /\ UNCHANGED << data, codes, pos, entries, table, back, bpos >>

Asked(sofar) == {t \in table : t[1] = sofar}
RestoreOne ==
  /\ mode = "restore" /\ bpos < Len(data) /\ Len(back) < Len(entries)
  /\ NeedsNew(s) => Asked(back) # {}
  /\ LET f == Fresh(s, IF NeedsNew(s) THEN (CHOOSE t \in Asked(back) : TRUE)[2] ELSE << >>)
         e == entries[Len(back) + 1]
         code == Restored(f, e, data[bpos + 1])
     IN  /\ back' = Append(back, code) /\ bpos' = bpos + Emit(code)
         /\ s' = After(f, e = Right)
  /\ UNCHANGED << data, codes, pos, entries, table, mode >>

Next == TraceOne \/ Turn \/ RestoreOne
Spec == Init /\ [][Next]_vars

\* restoring follows the codes all the way, asks the predictor nothing new, and never sticks
Lossless == /\ IsPrefix(back, codes)
            /\ mode = "restore" /\ bpos < Len(data) => ENABLED RestoreOne
            /\ mode = "restore" /\ bpos = Len(data) => back = codes
OnePerCode == Len(entries) = Len(codes)
\* an entry is Right exactly if the latest prediction asked for before it says so
Latest(i) == CHOOSE t \in table : /\ Len(t[1]) < i
                                  /\ \A u \in table : Len(u[1]) < i => Len(u[1]) <= Len(t[1])
RightWhereRight ==
  \A i \in 1..Len(entries) :
    LET t == Latest(i)  j == Len(t[1]) IN
    /\ i - j <= Len(t[2])
    /\ entries[i] = IF t[2][i - j] = codes[i] THEN Right ELSE EntryOf(codes[i])
    /\ \A m \in (j + 1)..(i - 1) : entries[m] = Right
\* one prediction for every codes-so-far
Function == \A t, u \in table : t[1] = u[1] => t = u
=============================================================================
