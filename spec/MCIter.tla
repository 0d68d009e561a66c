------------------------------- MODULE MCIter -------------------------------
(***************************************************************************)
(* Exhaustive check of the iterator contract for all lengths up to MaxLen  *)
(* and two handles (an iterator and clones of it): nothing is lost,        *)
(* repeated or reordered, the remaining length is exact, clones are        *)
(* independent, and exhausted iterators stay exhausted.                    *)
(* With Gen = 1 every behaviour of length Depth is printed as a job, with  *)
(* Gen = 2 random ones.                                                    *)
(***************************************************************************)
EXTENDS Iter, TLC, Json, IOUtils, FiniteSets
CONSTANTS MaxLen, Depth, Handles, Gen
ASSUME MaxLen \in Nat /\ Depth \in Nat
VARIABLES n,     \* length of the underlying sequence
          win,   \* handle -> window, or Closed
          front, back, skipped, \* ghost: per handle, what was yielded from the front / back (positions), and skipped
          h      \* the calls so far
vars == << n, win, front, back, skipped, h >>
Ks == { BInt(k) : k \in 0..(MaxLen + 1) } \cup { BSub(BShl(BInt(1), 64), BInt(1)), BShl(BInt(1), 63) }
KId(k) == IF BBitLen(k) > 31 THEN (IF BBitLen(k) = 64 /\ BSign(BMod(k, BInt(2))) # 0 THEN -1 ELSE -2) ELSE BToInt(k)
Closed == [lo |-> BInt(-1), len |-> BInt(-1)]
P(i) == BToInt(i)

Init == /\ n \in 0..MaxLen
        /\ win = [x \in Handles |-> IF x = 1 THEN Window(BInt(n)) ELSE Closed]
        /\ front = [x \in Handles |-> <<>>] /\ back = [x \in Handles |-> <<>>]
        /\ skipped = [x \in Handles |-> {}]
        /\ h = <<>>
Open(x) == win[x] # Closed
Do(x, o, k) ==
  /\ Open(x)
  /\ LET r == Apply(win[x], o, k)
         old == P(win[x].lo) .. (P(win[x].lo) + P(win[x].len) - 1)
         new == P(r.w.lo) .. (P(r.w.lo) + P(r.w.len) - 1)
         got == IF r.ret = None THEN {} ELSE { P(r.ret[1]) }
     IN /\ win' = [win EXCEPT ![x] = r.w]
        /\ front' = [front EXCEPT ![x] = IF o \in {"next", "nth"} /\ r.ret # None THEN Append(@, P(r.ret[1])) ELSE @]
        /\ back' = [back EXCEPT ![x] = IF o \in {"next_back", "nth_back"} /\ r.ret # None THEN Append(@, P(r.ret[1])) ELSE @]
        /\ skipped' = [skipped EXCEPT ![x] = @ \cup ((old \ new) \ got)]
  /\ h' = Append(h, << x, o, KId(k) >>)
  /\ UNCHANGED n
CloneIt(x, y) ==
  /\ Open(x) /\ ~Open(y) /\ x # y
  /\ win' = [win EXCEPT ![y] = win[x]]
  /\ front' = [front EXCEPT ![y] = front[x]] /\ back' = [back EXCEPT ![y] = back[x]]
  /\ skipped' = [skipped EXCEPT ![y] = skipped[x]]
  /\ h' = Append(h, << x, "clone", y >>)
  /\ UNCHANGED n
Consume(x, o) ==
  /\ Open(x)
  /\ win' = [win EXCEPT ![x] = Closed]
  /\ h' = Append(h, << x, o, 0 >>)
  /\ UNCHANGED << n, front, back, skipped >>
Calls == \/ \E x \in Handles : Do(x, "next", BInt(0)) \/ Do(x, "next_back", BInt(0))
         \/ \E x \in Handles, k \in Ks : Do(x, "nth", k) \/ Do(x, "nth_back", k)
         \/ \E x, y \in Handles : CloneIt(x, y)
         \/ Len(h) = Depth - 1 /\ \E x \in Handles : Consume(x, "count") \/ Consume(x, "last")
\* Gen = 2: one random call, all kinds equally likely, small skips preferred
SmallKs == { BInt(k) : k \in 0..2 }
Random ==
  \E x \in { RandomElement({ y \in Handles : Open(y) }) },
     o \in { RandomElement({"next", "next_back", "nth", "nth_back", "clone", "fin"}) },
     k \in { RandomElement(IF RandomElement(1..4) = 1 THEN Ks ELSE SmallKs) },
     c \in { RandomElement({"count", "last"}) } :
    IF Len(h) = Depth - 1 THEN Consume(x, c)
    ELSE IF o = "fin" THEN (IF Cardinality({ y \in Handles : Open(y) }) > 1 THEN Consume(x, c) ELSE Do(x, "nth", k))
    ELSE IF o = "clone" THEN (IF \A y \in Handles : Open(y) THEN Do(x, "next", BInt(0))
                              ELSE \E y \in { RandomElement({ z \in Handles : ~Open(z) }) } : CloneIt(x, y))
    ELSE Do(x, o, IF o \in {"nth", "nth_back"} THEN k ELSE BInt(0))
Finish == /\ Gen > 0 /\ Len(h) = Depth /\ PrintT("@@JOB " \o ToJson(<< n, h >>))
          /\ h' = Append(h, << 0, "end", 0 >>) /\ UNCHANGED << n, win, front, back, skipped >>
Next == IF Len(h) < Depth THEN (IF Gen = 2 THEN Random ELSE Calls) ELSE Finish
Spec == Init /\ [][Next]_vars

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ran(s) == { s[i] : i \in 1..Len(s) }
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* the two ends and the remainder partition the sequence, in order
Conserve ==
  \A x \in Handles : Open(x) =>
    LET rest == P(win[x].lo) .. (P(win[x].lo) + P(win[x].len) - 1)
    IN /\ Ran(front[x]) \cup Ran(back[x]) \cup rest \cup skipped[x] = 0..(n - 1)
       /\ Cardinality(Ran(front[x])) + Cardinality(Ran(back[x])) + Cardinality(rest) + Cardinality(skipped[x]) = n
       /\ Ascending(front[x] \o Rev(back[x]))
       /\ \A i \in rest : (\A f \in Ran(front[x]) : f < i) /\ (\A b \in Ran(back[x]) : b > i)
Exhausted == \A x \in Handles : Open(x) /\ BSign(win[x].len) = 0 =>
    \A o \in Mutators, k \in Ks : Apply(win[x], o, k).ret = None /\ BSign(Apply(win[x], o, k).w.len) = 0
\* nth(k) is k nexts followed by a next
NthIsNexts == \A x \in Handles : Open(x) =>
    \A k \in 0..MaxLen :
      LET RECURSIVE Go(_, _, _)
          Go(w, o, j) == IF j = 0 THEN Apply(w, o, BInt(0)) ELSE Go(Apply(w, o, BInt(0)).w, o, j - 1)
      IN /\ Go(win[x], "next", k).ret = Nth(win[x], BInt(k)).ret
         /\ Go(win[x], "next", k).w.len = Nth(win[x], BInt(k)).w.len
         /\ Go(win[x], "next_back", k).ret = NthBack(win[x], BInt(k)).ret
         /\ Go(win[x], "next_back", k).w.len = NthBack(win[x], BInt(k)).w.len
View == << n, win, front, back, skipped, IF Gen > 0 THEN h ELSE << Len(h) >> >>
=============================================================================
