------------------------------ MODULE WindowMC ------------------------------
(* A ring of `cap` cells as the code keeps it, against Window: every sequence *)
(* of up to Depth operations, for every capacity up to MaxCap. Every sequence *)
(* is printed, to be replayed in the real code.                               *)
EXTENDS Window

CONSTANTS MaxCap, Depth, MaxCopy, Big

VARIABLES cells, at, n, \* the ring: cells, next cell to write, how many are valid
          steps, script

vars == << cap, w, cells, at, n, steps, script >>

Init == \E c \in 1..MaxCap :
          /\ WInit(c)
          /\ cells = [i \in 0..(c - 1) |-> 0] /\ at = 0 /\ n = 0
          /\ steps = 0 /\ script = ""

PutAll(bytes) ==
  LET r == FoldLeft(LAMBDA a, b : [cells |-> [a.cells EXCEPT ![a.at] = b],
                                   at |-> (a.at + 1) % cap, n |-> MinOf(cap, a.n + 1)],
                    [cells |-> cells, at |-> at, n |-> n], bytes)
  IN  /\ cells' = r.cells /\ at' = r.at /\ n' = r.n

\* the ring's own way of copying: read a cell, write it, move on
RingCopy(d, k) ==
  LET r == FoldLeft(LAMBDA a, i : LET b == a.cells[(a.at + cap - d) % cap]
                                  IN [cells |-> [a.cells EXCEPT ![a.at] = b],
                                      at |-> (a.at + 1) % cap, n |-> MinOf(cap, a.n + 1)],
                    [cells |-> cells, at |-> at, n |-> n], [i \in 1..k |-> i])
  IN  /\ cells' = r.cells /\ at' = r.at /\ n' = r.n

Did(text) == /\ steps < Depth /\ steps' = steps + 1 /\ script' = script \o text \o ";"

Fresh == Len(w) + 1
Next ==
  \/ Did("p" \o ToString(Fresh)) /\ Extend(<< Fresh >>) /\ PutAll(<< Fresh >>)
  \/ \E k \in Big : LET bs == [i \in 1..k |-> Fresh + i] IN
       Did("x" \o ToString(Fresh + 1) \o "+" \o ToString(k)) /\ Extend(bs) /\ PutAll(bs)
  \/ \E d \in 0..(cap + 1), k \in 0..MaxCopy :
       /\ Did("c" \o ToString(d) \o ":" \o ToString(k))
       /\ Copy(d, k)
       /\ IF d >= 1 /\ d <= n THEN RingCopy(d, k) ELSE UNCHANGED << cells, at, n >>
Spec == Init /\ [][Next]_vars

Printed == IF steps = Depth THEN PrintT("CASE " \o ToString(cap) \o " " \o script) ELSE TRUE

\* the ring shows what the list says
Same == /\ n = Shown
        /\ \A d \in 1..n : cells[(at + cap - d) % cap] = AtDist(d)
        /\ Contents = [i \in 1..n |-> cells[(at + cap - n + i - 1) % cap]]
Bounded == n <= cap
KeepsLast == [][ \E k \in 0..Len(w') : SubSeq(w', 1, Len(w)) = w /\ k = Len(w') ]_vars
=============================================================================
