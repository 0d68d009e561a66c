---------------------------- MODULE MCGaussQuad ----------------------------
(***************************************************************************)
(* GaussQuad with small constants.  The data of a Gauss rule is determined *)
(* by its arguments (Canon): construction is a function.  Ghost variables  *)
(* record where every value came from; the invariants say that rules are   *)
(* values, that iterators see the rule they were opened on, and that an    *)
(* integration evaluates every sample point exactly once, whatever happens *)
(* in between (nested integrations, faults, other calls).                  *)
(* With Gen = 1 the calls are recorded and printed as replayable jobs.     *)
(***************************************************************************)
EXTENDS GaussQuad, TLC, Json
CONSTANTS Fams, Degs, Pars, Depth, MaxFrames, Gen
VARIABLES ghost,  \* slot -> arguments of the rule that should be there (Nil if none)
          log,    \* results of finished integrations: the sets of evaluations
          h, nops, \* the calls made, and their number
          want     \* with Gen = 1: the kind of call to make next
mvars == << rules, iters, params, frames, ghost, log, h, nops, want >>

PN(f) == IF f = "Jacobi" THEN 2 ELSE IF f = "Laguerre" THEN 1 ELSE 0
Canon(f, n, a, b) == IF f \in FixedStep THEN "-" ELSE << f, n, a, b >>
Rule(f, n, a, b) == [fam |-> f, n |-> n, al |-> a, be |-> b, data |-> Canon(f, n, a, b)]
MCItems(r) == BInt(r.n)
Samples(r) == CASE r.fam = "Trapezoid" -> r.n + 1 [] r.fam = "Simpson" -> 2 * r.n + 1 [] OTHER -> r.n

Rec(x) == h' = Append(h, x) /\ nops' = nops + 1 /\ want' = ""
Keep == UNCHANGED << ghost, log >>
Init == GQInit /\ ghost = [s \in RuleSlots |-> Nil] /\ log = {} /\ h = << >> /\ nops = 0 /\ want = ""
idle == frames = << >>

New == \E d \in RuleSlots, f \in Fams, n \in Degs :
         \E a \in (IF PN(f) >= 1 THEN Pars ELSE {0}), b \in (IF PN(f) = 2 THEN Pars ELSE {0}) :
           /\ idle /\ NewRule(d, Rule(f, n, a, b))
           /\ ghost' = [ghost EXCEPT ![d] = << f, n, a, b, Canon(f, n, a, b) >>] /\ UNCHANGED log
           /\ Rec(<< "new", d, f, n, a, b >>)
Clone == \E s, d \in RuleSlots : s # d /\ idle /\ CloneRule(s, d)
           /\ ghost' = [ghost EXCEPT ![d] = ghost[s]] /\ UNCHANGED log /\ Rec(<< "clone", s, d >>)
Revive == \E s, d \in RuleSlots : s # d /\ idle /\ ReviveRule(s, d)
           /\ ghost' = [ghost EXCEPT ![d] = ghost[s]] /\ UNCHANGED log /\ Rec(<< "ser", s, d >>)
Edited(n, data) == << "edited", n, data >>
Edit == \E s, d \in RuleSlots, n \in Degs : s # d /\ idle /\ rules[s] # Nil /\ rules[s].fam \in Gauss /\ rules[s].data[1] # "edited" /\ EditRule(s, d, n, Edited(n, rules[s].data))
           /\ ghost' = [ghost EXCEPT ![d] = [ghost[s] EXCEPT ![2] = n, ![5] = Edited(n, @)]] /\ UNCHANGED log /\ Rec(<< "edit", s, d, n >>)
Move == \E s, d \in RuleSlots : idle /\ MoveRule(s, d)
           /\ ghost' = [ghost EXCEPT ![d] = ghost[s], ![s] = Nil] /\ UNCHANGED log /\ Rec(<< "move", s, d >>)
Drop == \E s \in RuleSlots : idle /\ DropRule(s)
           /\ ghost' = [ghost EXCEPT ![s] = Nil] /\ UNCHANGED log /\ Rec(<< "drop", s >>)
Conv == \E s, d \in RuleSlots : idle /\ ConvRule(s, d, "zero", "half", "neghalf")
           /\ LET p == CASE rules[s].fam = "Legendre" -> "zero" [] rules[s].fam = "Cheb1" -> "neghalf" [] OTHER -> "half"
              IN ghost' = [ghost EXCEPT ![d] = << "Jacobi", ghost[s][2], p, p, ghost[s][5] >>]
           /\ UNCHANGED log /\ Rec(<< "conv", s, d >>)
Degree == \E s \in RuleSlots, n \in Degs : idle /\ SetDegree(s, n)
           /\ ghost' = [ghost EXCEPT ![s][2] = n] /\ UNCHANGED log /\ Rec(<< "change_degree", s, n >>)
Eq == \E s, q \in RuleSlots : idle /\ rules[s] # Nil /\ rules[q] # Nil /\ rules[s].fam = rules[q].fam
           /\ UNCHANGED vars /\ Keep /\ Rec(<< "eq", s, q >>)
Views == \E s \in RuleSlots : idle /\ rules[s] # Nil /\ UNCHANGED vars /\ Keep /\ Rec(<< "views", s >>)
Open == \E s \in RuleSlots, i \in IterSlots : idle /\ rules[s] # Nil
           /\ \E k \in Kinds(rules[s]) : OpenIter(s, k, i) /\ Keep /\ Rec(<< "iopen", s, k, i >>)
Step == \E i \in IterSlots : idle /\ iters[i] # Nil
           /\ \E o \in {"next", "next_back"} : StepIter(i, o, BInt(0)) /\ Keep /\ Rec(<< "iop", i, o >>)
CloneI == \E i, j \in IterSlots : i # j /\ idle /\ CloneIter(i, j) /\ Keep /\ Rec(<< "iclone", i, j >>)
\* integrations: Gen mode takes them whole; otherwise evaluation by evaluation, nested, with faults
CallI == \E s \in RuleSlots : Gen = 1 /\ rules[s] # Nil /\ Call(rules[s]) /\ Keep /\ Rec(<< "integ", s >>)
BeginI == \E s \in RuleSlots, flt \in 0..2 :
            Gen = 0 /\ Len(frames) < MaxFrames /\ rules[s] # Nil /\ flt <= Samples(rules[s])
            /\ Begin(rules[s], Samples(rules[s]), flt) /\ Keep /\ Rec(<< >>)
EvalI == Gen = 0 /\ frames # << >> /\ (\E p \in Top.todo : Evaluate(p)) /\ Keep /\ UNCHANGED << h, nops, want >>
FaultI == Gen = 0 /\ Fault /\ Keep /\ UNCHANGED << h, nops, want >>
ReturnI == Gen = 0 /\ Return /\ log' = log \cup { << Top.rule, Top.done >> } /\ UNCHANGED << ghost, h, nops, want >>

Calls == New \/ Clone \/ Revive \/ Edit \/ Move \/ Drop \/ Conv \/ Degree \/ Eq \/ Views \/ Open \/ Step \/ CloneI \/ CallI \/ BeginI
(* Random behaviours (Gen = 1): first the kind of call is chosen among those that can be made,  *)
(* then the call, so that all kinds are about equally frequent.                                 *)
Cats == {"new", "clone", "revive", "edit", "move", "drop", "conv", "degree", "eq", "views", "open", "step", "clonei", "call", "call2", "step2"}
Has1 == \E s \in RuleSlots : rules[s] # Nil
HasI == \E i \in IterSlots : iters[i] # Nil
CanDo(c) == CASE c = "new" -> TRUE
              [] c \in {"clone", "revive", "move", "drop", "views", "open", "call", "call2"} -> Has1
              [] c = "edit" -> \E s \in RuleSlots : rules[s] # Nil /\ rules[s].fam \in Gauss /\ rules[s].data[1] # "edited"
              [] c = "conv" -> \E s \in RuleSlots : rules[s] # Nil /\ rules[s].fam \in Convertible
              [] c = "degree" -> \E s \in RuleSlots : rules[s] # Nil /\ rules[s].fam \in FixedStep
              [] c = "eq" -> Has1
              [] c \in {"step", "step2", "clonei"} -> HasI
Choose == /\ nops < Depth /\ want = "" /\ \E c \in Cats : CanDo(c) /\ want' = c
          /\ UNCHANGED << rules, iters, params, frames, ghost, log, h, nops >>
Chosen ==
  CASE want = "new" -> New [] want = "clone" -> Clone [] want = "revive" -> Revive [] want = "edit" -> Edit [] want = "move" -> Move
    [] want = "drop" -> Drop [] want = "conv" -> Conv [] want = "degree" -> Degree [] want = "eq" -> Eq
    [] want = "views" -> Views [] want = "open" -> Open [] want \in {"step", "step2"} -> Step [] want = "clonei" -> CloneI
    [] want \in {"call", "call2"} -> CallI
    [] OTHER -> FALSE
Finish == /\ nops = Depth /\ PrintT("@@JOB " \o ToJson(h)) /\ nops' = Depth + 1
          /\ UNCHANGED << rules, iters, params, frames, ghost, log, h, want >>

Next == IF Gen = 1 THEN Choose \/ Chosen \/ Finish
        ELSE (nops < Depth /\ Calls) \/ EvalI \/ FaultI \/ ReturnI
Spec == Init /\ [][Next]_mvars

(* ------------------------------ properties ------------------------------ *)
Ran(s) == { s[i] : i \in 1..Len(s) }
\* every slot holds exactly the value its history says, no matter what else happened
ValueSemantics == \A s \in RuleSlots :
   IF ghost[s] = Nil THEN rules[s] = Nil
   ELSE rules[s] = [fam |-> ghost[s][1], n |-> ghost[s][2], al |-> ghost[s][3], be |-> ghost[s][4], data |-> ghost[s][5]]
IterWindows == \A i \in IterSlots : iters[i] # Nil =>
   BLe(BInt(0), iters[i].w.len) /\ BLe(BAdd(iters[i].w.lo, iters[i].w.len), MCItems(iters[i].rule))
EachOnce == \A k \in 1..Len(frames) : LET f == frames[k] IN
   Len(f.done) = Cardinality(Ran(f.done)) /\ Ran(f.done) \cap f.todo = {} /\ Ran(f.done) \cup f.todo = 1..Samples(f.rule)
Finished == \A r \in log : Len(r[2]) = Samples(r[1]) /\ Ran(r[2]) = 1..Samples(r[1])
\* integrating, faulting and iterating never change a rule
ReadsAreReads == [][ (frames # frames' \/ iters # iters') => rules' = rules ]_mvars
FaultIsLocal == [][ (frames # << >> /\ Len(frames') < Len(frames)) => frames' = Below ]_mvars
View == << rules, iters, frames, ghost, log, IF Gen = 1 THEN h ELSE << >>, nops >>
=============================================================================
