------------------------------- MODULE Window -------------------------------
(* The history buffer. `w` is simply everything ever written; a buffer of    *)
(* capacity `cap` shows its last Shown bytes.                                *)
EXTENDS Bits, TLC

VARIABLES cap, w

Shown == MinOf(cap, Len(w))
Contents == SubSeq(w, Len(w) - Shown + 1, Len(w))
AtDist(d) == w[Len(w) - d + 1]

WInit(n) == cap = n /\ w = << >>

Extend(bytes) == w' = w \o bytes /\ UNCHANGED cap

\* What a copy of n bytes from distance d gives: byte i is the byte d before it,
\* which for i > d is one the copy itself has written.
Copied(d, n) == [i \in 1..n |-> w[Len(w) - d + 1 + ((i - 1) % d)]]
CanCopy(d) == d >= 1 /\ d <= Shown
Copy(d, n) == /\ w' = IF CanCopy(d) THEN w \o Copied(d, n) ELSE w
              /\ UNCHANGED cap
=============================================================================
