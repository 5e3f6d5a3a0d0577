------------------------------- MODULE Filter -------------------------------
(* A filter in front of a reader or writer: every call is passed on as it    *)
(* is, its result is the inner one's, and what passed is remembered. The     *)
(* hash is left abstract: Sha(bytes). Calls that move bytes in one go (one,  *)
(* vec) move exactly the count they return; the others (all, end, rest,      *)
(* bytes, fmt) are made of several such calls and may have moved bytes       *)
(* before they failed; flush moves none.                                     *)
EXTENDS Integers, Sequences, TLC
VARIABLES passed      \* number of bytes passed so far
\* result: a count or (negative) an error; moved: the bytes it moved
Possible(op, asked, result, moved) ==
  /\ moved >= 0
  /\ CASE op \in {"one", "vec"} -> moved = (IF result > 0 THEN result ELSE 0) /\ moved <= asked
       [] op = "flush" -> moved = 0 /\ result <= 0
       [] op = "rest" -> result >= 0 => moved = result
       [] OTHER -> moved <= asked /\ (result >= 0 => moved = result)
Transfer(moved) == passed' = passed + moved
=============================================================================
