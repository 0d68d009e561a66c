------------------------------ MODULE ParReduce ------------------------------
(***************************************************************************)
(* How the parallel methods work: the items 1..N (cells of a fixed-step    *)
(* rule, node-weight pairs of a Gauss rule, indices of a constructor) are  *)
(* a segment that is split into adjacent segments at arbitrary places and  *)
(* times, executed by at most T workers at a time, item by item in order   *)
(* within a segment; adjacent finished segments are joined.  An item may   *)
(* fault: its segment is abandoned there, and joining anything with a      *)
(* faulted segment is faulted.                                             *)
(* The model covers every work-splitting schedule of a fork-join pool.     *)
(* What is checked: however the work is split, stolen and joined, every    *)
(* item is executed exactly once, the joined result holds every term once  *)
(* and in order (so collecting keeps the order and summing is a            *)
(* reassociation of the sequential sum), a fault always surfaces, and the  *)
(* call always returns.                                                    *)
(* With Gen = 1 the order of executions of each behaviour is printed, and  *)
(* the harness steers the real thread pool towards it.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Threads, Gen
VARIABLES n,      \* number of items
          t,      \* number of workers
          fault,  \* the item that faults (0: none)
          segs,   \* the current segments, in order: [lo, hi, at, st, terms]
          order   \* items in order of execution
vars == << n, t, fault, segs, order >>
Seg(a, b) == [lo |-> a, hi |-> b, at |-> a, st |-> "new", terms |-> << >>]
Init == /\ n \in 1..MaxN /\ t \in Threads /\ fault \in 0..n
        /\ segs = << Seg(1, n) >> /\ order = << >>
Running == Cardinality({ i \in 1..Len(segs) : segs[i].st = "run" })
Replace(i, new) == SubSeq(segs, 1, i - 1) \o new \o SubSeq(segs, i + 1, Len(segs))
\* a segment nobody works on yet is split in two
Split(i, m) ==
  /\ segs[i].st = "new" /\ segs[i].lo <= m /\ m < segs[i].hi
  /\ segs' = Replace(i, << Seg(segs[i].lo, m), Seg(m + 1, segs[i].hi) >>)
  /\ UNCHANGED << n, t, fault, order >>
Take(i) ==
  /\ segs[i].st = "new" /\ Running < t
  /\ segs' = [segs EXCEPT ![i].st = "run"]
  /\ UNCHANGED << n, t, fault, order >>
Exec(i) ==
  /\ segs[i].st = "run" /\ segs[i].at <= segs[i].hi
  /\ order' = Append(order, segs[i].at)
  /\ segs' = IF segs[i].at = fault THEN [segs EXCEPT ![i].st = "fault"]
             ELSE [segs EXCEPT ![i].at = @ + 1, ![i].terms = Append(@, segs[i].at)]
  /\ UNCHANGED << n, t, fault >>
Finish(i) ==
  /\ segs[i].st = "run" /\ segs[i].at > segs[i].hi
  /\ segs' = [segs EXCEPT ![i].st = "done"]
  /\ UNCHANGED << n, t, fault, order >>
Ended == {"done", "fault"}
\* adjacent results are combined; a fault absorbs
Join(i) ==
  /\ i < Len(segs) /\ segs[i].st \in Ended /\ segs[i + 1].st \in Ended
  /\ LET l == segs[i] r == segs[i + 1]
         s == IF "fault" \in {l.st, r.st} THEN "fault" ELSE "done"
     IN segs' = SubSeq(segs, 1, i - 1)
                \o << [lo |-> l.lo, hi |-> r.hi, at |-> r.hi + 1, st |-> s, terms |-> l.terms \o r.terms] >>
                \o SubSeq(segs, i + 2, Len(segs))
  /\ UNCHANGED << n, t, fault, order >>
Returned == Len(segs) = 1 /\ segs[1].st \in Ended
Report == Gen = 1 /\ Returned /\ fault = 0 /\ PrintT("@@JOB " \o ToJson(<< n, t, order >>)) /\ segs' = << >> /\ UNCHANGED << n, t, fault, order >>
Next == (\E i \in 1..Len(segs) : (\E m \in 1..n : Split(i, m)) \/ Take(i) \/ Exec(i) \/ Finish(i) \/ Join(i)) \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ran(s) == { s[i] : i \in 1..Len(s) }
Tiling == /\ segs # << >> => segs[1].lo = 1 /\ segs[Len(segs)].hi = n
          /\ \A i \in 1..(Len(segs) - 1) : segs[i].hi + 1 = segs[i + 1].lo
AtMostOnce == Len(order) = Cardinality(Ran(order))
WorkersBound == Running <= t
InOrder == \A i \in 1..Len(segs) : segs[i].st = "done" => segs[i].terms = [k \in 1..(segs[i].hi - segs[i].lo + 1) |-> segs[i].lo + k - 1]
Result == Returned =>
   IF fault = 0 THEN segs[1].st = "done" /\ segs[1].terms = [k \in 1..n |-> k] /\ Ran(order) = 1..n
   ELSE segs[1].st = "fault" /\ fault \in Ran(order)
Returns == <>Returned
View == << n, t, fault, segs, IF Gen = 1 THEN order ELSE << Len(order), Ran(order) >> >>
=============================================================================
