-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* The contract of every iterator: a window [lo, lo+len) over the rule's   *)
(* sequence, consumed from both ends.  Positions and skip counts are       *)
(* BigInts (degrees reach 2^32-1 and skip counts 2^64-1).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigInt

Window(n) == [lo |-> BInt(0), len |-> n]
None == << >>
Some(i) == << i >>

\* each operator returns [ret, w]: what the call yields (a position or None) and the window left
Nth(w, k) ==
  IF BLt(k, w.len)
  THEN [ret |-> Some(BAdd(w.lo, k)),
        w |-> [lo |-> BAdd(BAdd(w.lo, k), BInt(1)), len |-> BSub(BSub(w.len, k), BInt(1))]]
  ELSE [ret |-> None, w |-> [lo |-> BAdd(w.lo, w.len), len |-> BInt(0)]]
NthBack(w, k) ==
  IF BLt(k, w.len)
  THEN [ret |-> Some(BSub(BAdd(w.lo, BSub(w.len, k)), BInt(1))),
        w |-> [lo |-> w.lo, len |-> BSub(BSub(w.len, k), BInt(1))]]
  ELSE [ret |-> None, w |-> [lo |-> w.lo, len |-> BInt(0)]]
NextF(w) == Nth(w, BInt(0))
NextB(w) == NthBack(w, BInt(0))

Mutators == {"next", "next_back", "nth", "nth_back"}
Apply(w, o, k) ==
  CASE o = "next" -> NextF(w)
    [] o = "next_back" -> NextB(w)
    [] o = "nth" -> Nth(w, k)
    [] o = "nth_back" -> NthBack(w, k)
    [] OTHER -> [ret |-> None, w |-> w]     \* pure observations
=============================================================================
