---------------------------- MODULE WindowProof ----------------------------
(* A ring of `cap` cells shows, at each distance, what the list of all that   *)
(* was ever written says: proved for every capacity and any writes and copies *)
(* (WindowMC checks the same, and that the real code does it, for small       *)
(* ones). A copy is its bytes, one at a time, each read at the same distance. *)
EXTENDS Integers, Sequences, TLAPS

CONSTANTS cap, Byte
ASSUME Cap == cap \in Nat /\ cap > 0

VARIABLES w, cells, at, n
vars == << w, cells, at, n >>

Cells == 0..(cap - 1)
AtDist(d) == w[Len(w) - d + 1]          \* as in Window
RingAt(d) == cells[(at + cap - d) % cap] \* as in WindowMC

Init == w = << >> /\ cells \in [Cells -> Byte] /\ at = 0 /\ n = 0

Push(b) == /\ w' = Append(w, b)
           /\ cells' = [cells EXCEPT ![at] = b]
           /\ at' = (at + 1) % cap
           /\ n' = IF n < cap THEN n + 1 ELSE n

Write == \E b \in Byte : Push(b)
Copy == \E d \in 1..n : Push(RingAt(d))
Next == Write \/ Copy
Spec == Init /\ [][Next]_vars

Types == w \in Seq(Byte) /\ cells \in [Cells -> Byte] /\ at \in Cells /\ n \in 0..cap
Counts == n = IF Len(w) < cap THEN Len(w) ELSE cap
Same == \A d \in 1..n : RingAt(d) = AtDist(d)
Inv == Types /\ Counts /\ Same

\* the only arithmetic the ring needs
LEMMA Mod == \A x \in 0..(2 * cap - 1) : x % cap = IF x < cap THEN x ELSE x - cap
  BY Cap, Z3

LEMMA Pushed == ASSUME Inv, NEW b \in Byte, Push(b) PROVE Inv'
<1> USE Cap DEF Cells
<1>1. Types'
  <2>1. at' \in Cells
    BY Mod DEF Inv, Types, Push
  <2> QED
    BY <2>1 DEF Inv, Types, Push
<1>2. Counts'
  BY DEF Inv, Types, Counts, Push
<1>3. Same'
  <2> SUFFICES ASSUME NEW d \in 1..n' PROVE RingAt(d)' = AtDist(d)'
    BY DEF Same
  <2>0. n \in 0..cap /\ n' \in 0..cap /\ at \in Cells /\ at' \in Cells /\ d \in 1..cap /\ n' <= n + 1
    BY <1>1 DEF Types, Inv, Push
  <2>1. Len(w') = Len(w) + 1 /\ w'[Len(w) + 1] = b /\ \A i \in 1..Len(w) : w'[i] = w[i]
    BY DEF Inv, Types, Push
  <2>2. at' = IF at + 1 = cap THEN 0 ELSE at + 1
    BY <2>0, Mod DEF Push
  <2>3. CASE d = 1
    <3>0. at' + cap - d = (IF at + 1 = cap THEN at ELSE at + cap) /\ at \in 0..(cap - 1)
      BY <2>0, <2>2, <2>3
    <3>1. (at' + cap - d) % cap = at
      <4>1. CASE at + 1 = cap
        BY <4>1, <3>0, Mod
      <4>2. CASE at + 1 # cap
        BY <4>2, <3>0, Mod
      <4> QED
        BY <4>1, <4>2
    <3>2. cells'[at] = b
      BY <2>0 DEF Inv, Types, Push
    <3> QED
      BY <3>1, <3>2, <2>1, <2>3 DEF RingAt, AtDist, Inv, Types
  <2>4. CASE d > 1
    <3> DEFINE c == (at + cap - (d - 1)) % cap
    <3>1. (at' + cap - d) % cap = c /\ c # at /\ c \in Cells
      BY <2>0, <2>2, <2>4, Mod
    <3>2. cells'[c] = cells[c]
      BY <3>1 DEF Inv, Types, Push
    <3>3. d - 1 \in 1..n
      BY <2>0, <2>4
    <3>4. cells[c] = w[Len(w) - (d - 1) + 1]
      BY <3>3 DEF Inv, Same, RingAt, AtDist
    <3>5. Len(w) - (d - 1) + 1 \in 1..Len(w)
      BY <3>3, <2>0 DEF Inv, Types, Counts
    <3> QED
      BY <3>1, <3>2, <3>4, <3>5, <2>1 DEF RingAt, AtDist, Inv, Types
  <2> QED
    BY <2>0, <2>3, <2>4
<1> QED
  BY <1>1, <1>2, <1>3 DEF Inv

THEOREM Shows == Spec => []Inv
<1> USE Cap DEF Cells
<1>1. Init => Inv
  BY DEF Init, Inv, Types, Counts, Same
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, Types, Counts, Same, RingAt, AtDist, vars
  <2>2. CASE Write
    BY <2>2, Pushed DEF Write
  <2>3. CASE Copy
    <3> PICK d \in 1..n : Push(RingAt(d))
      BY <2>3 DEF Copy
    <3>1. (at + cap - d) % cap \in Cells
      BY Mod DEF Inv, Types
    <3>2. RingAt(d) \in Byte
      BY <3>1 DEF RingAt, Inv, Types
    <3> QED
      BY <3>2, Pushed
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec
=============================================================================
