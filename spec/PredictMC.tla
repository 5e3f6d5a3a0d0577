------------------------------ MODULE PredictMC -----------------------------
(* Every short window over an alphabet with colliding keys, every split into *)
(* history and data, every code sequence that decodes to the data: the fast  *)
(* definitions of Predict and Refs against the plain ones, and the           *)
(* guarantees about predictions. Every behaviour is printed, to be replayed. *)
EXTENDS Predict, FiniteSets, Json

CONSTANTS Alphabet, MinLen, MaxLen, MaxPre

VARIABLES K, n, pos   \* K.codes: the codes so far; n: how many
vars == << K, n, pos >>

\* the index, made by sorting
Index(W) ==
  LET m == IF Len(W) >= 3 THEN Len(W) - 3 ELSE 0
      Before(a, b) == HashAt(W, a) < HashAt(W, b) \/ (HashAt(W, a) = HashAt(W, b) /\ a > b)
      ord == SortSeq([i \in 1..m |-> i], Before)
  IN  [ord |-> ord,
       rank |-> IF m = 0 THEN << >> ELSE [p \in 1..(m + 1) |-> IF p = 1 THEN 0 ELSE CHOOSE i \in 1..m : ord[i] = p - 1],
       be |-> [i \in 1..m |-> CHOOSE j \in i..m : /\ HashAt(W, ord[j]) = HashAt(W, ord[i])
                                                  /\ (j = m \/ HashAt(W, ord[j + 1]) # HashAt(W, ord[i]))]]

Init == \E len \in MinLen..MaxLen : \E W \in [1..len -> Alphabet], np \in 0..MinOf(MaxPre, len) :
          /\ K = [win |-> W, np |-> np, codes |-> << >>, st |-> << >>, cv |-> << >>] @@ Index(W)
          /\ n = 0 /\ pos = np

Right(code) == IF ~ IsReference(code) THEN TRUE
               ELSE \A j \in 1..Run(code) : K.win[pos + j] = K.win[pos + j - Dist(code)]
Codes == {K.win[pos + 1]} \cup {65536 * r + d : r \in 3..(Len(K.win) - pos), d \in 1..pos}

Next == /\ pos < Len(K.win)
        /\ \E code \in {x \in Codes : Right(x)} :
             /\ K' = [K EXCEPT !.codes = Append(@, code), !.st = Append(@, pos),
                               !.cv = @ \o [j \in 1..Emitted(code) |-> n + 1]]
             /\ n' = n + 1 /\ pos' = pos + Emitted(code)
Spec == Init /\ [][Next]_vars

Printed == IF pos < Len(K.win) THEN TRUE
           ELSE PrintT("CASE " \o ToJson([win |-> K.win, np |-> K.np, codes |-> K.codes]))

\* small parameters that matter within such windows, and real ones
Params == {Level(q, t, h, l, f, k, a, b) :
             q \in {3, 4, 258}, t \in {1, 2, 4096}, h \in {0, 3}, l \in {1, 2, 65535}, f \in {TRUE}, k \in {"greedy"}, a \in {0}, b \in {0}}
          \cup {Presets.g1, Presets.g2, Presets.g9, Presets.spicy, Presets.lazy4, Presets.lazy9}

IndexRight == IndexOk(K)
FastIsPlain ==
  pos < Len(K.win) =>
  \A p \in pos..MinOf(pos + 2, Len(K.win) - 1) :
    /\ HasThree(K.win, p) /\ p > 0 => Chain(K, p) = ChainDef(K.win, p)
    /\ \A q \in 0..(p - 1) : RunAt(K.win, p, q) = RunDef(K.win, p, q, 0)
    /\ \A ps \in Params : Search(K, n, p, ps, ps.tries) = SearchDef(K, n, p, ps, ps.tries)
\* what is predicted is always a correct encoding of what is ahead
PredictsRight ==
  pos < Len(K.win) => \A ps \in Params : CorrectFrom(K.win, pos, Prediction(K, n, pos, ps))
=============================================================================
