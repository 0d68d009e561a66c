------------------------------ MODULE GaussQuad ------------------------------
(***************************************************************************)
(* The library as a state machine: what a program holding rules, iterators *)
(* and parameters of gauss-quad can observe.  One action per public call;  *)
(* an integration is several actions (the call, one evaluation of the      *)
(* integrand per node, the return), because the integrand is user code     *)
(* that may itself integrate, panic, or use other rules in between.        *)
(*                                                                         *)
(* A rule is a value [fam, n, al, be, data]: its family, degree,           *)
(* parameters and (for Gauss rules) its node-weight data, an opaque value  *)
(* here.  MCGaussQuad checks this machine exhaustively with small          *)
(* constants and prints its behaviours, which are replayed into the        *)
(* implementation; Trace checks recorded executions against it, with data  *)
(* bound to recorded node-weight pairs.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Iter
CONSTANTS RuleSlots, IterSlots, ParamSlots,
          Items(_)        \* Items(rule): length of its sequence of items, as a BigInt

VARIABLES rules,   \* slot -> rule or Nil
          iters,   \* slot -> [rule, kind, w] or Nil
          params,  \* slot -> value of a parameter or Nil
          frames   \* stack of integrations in progress
vars == << rules, iters, params, frames >>
Nil == [nil |-> TRUE]
Gauss == {"Legendre", "Jacobi", "Laguerre", "Hermite", "Cheb1", "Cheb2"}
FixedStep == {"Midpoint", "Simpson", "Trapezoid"}
Kinds(r) == IF r.fam \in FixedStep THEN {"iter", "ref", "into"} ELSE {"nodes", "weights", "iter", "ref", "into"}

GQInit == /\ rules = [s \in RuleSlots |-> Nil]
          /\ iters = [s \in IterSlots |-> Nil]
          /\ params = [s \in ParamSlots |-> Nil]
          /\ frames = << >>

(* ---------------------------- rules are values -------------------------- *)
NewRule(d, r) == /\ rules' = [rules EXCEPT ![d] = r]
                 /\ UNCHANGED << iters, params, frames >>
CloneRule(s, d) == rules[s] # Nil /\ NewRule(d, rules[s])
\* serialization followed by deserialization
ReviveRule(s, d) == CloneRule(s, d)
\* deserialization of a document of that rule whose pairs were replaced by n others
EditRule(s, d, n, data) == rules[s] # Nil /\ rules[s].fam \in Gauss /\ NewRule(d, [rules[s] EXCEPT !.n = n, !.data = data])
MoveRule(s, d) == /\ rules[s] # Nil /\ s # d
                  /\ rules' = [rules EXCEPT ![s] = Nil, ![d] = rules[s]]
                  /\ UNCHANGED << iters, params, frames >>
DropRule(s) == /\ rules[s] # Nil
               /\ rules' = [rules EXCEPT ![s] = Nil]
               /\ UNCHANGED << iters, params, frames >>
\* parameters that a rule of another family has as a Jacobi rule
JacobiOf(r, zero, half, neghalf) ==
  LET p == CASE r.fam = "Legendre" -> zero [] r.fam = "Cheb1" -> neghalf [] r.fam = "Cheb2" -> half
  IN [r EXCEPT !.fam = "Jacobi", !.al = p, !.be = p]
Convertible == {"Legendre", "Cheb1", "Cheb2"}
ConvRule(s, d, zero, half, neghalf) ==
  rules[s] # Nil /\ rules[s].fam \in Convertible /\ NewRule(d, JacobiOf(rules[s], zero, half, neghalf))
SetDegree(s, n) == rules[s] # Nil /\ rules[s].fam \in FixedStep /\ NewRule(s, [rules[s] EXCEPT !.n = n])
SameRule(r, q) == r = q

(* ------------------------------- iterators ------------------------------ *)
OpenIter(s, k, i) ==
  /\ rules[s] # Nil /\ k \in Kinds(rules[s])
  /\ iters' = [iters EXCEPT ![i] = [rule |-> rules[s], kind |-> k, w |-> Window(Items(rules[s]))]]
  /\ UNCHANGED << rules, params, frames >>
StepIter(i, o, k) ==
  /\ iters[i] # Nil
  /\ iters' = [iters EXCEPT ![i].w = Apply(iters[i].w, o, k).w]
  /\ UNCHANGED << rules, params, frames >>
IterRet(i, o, k) == Apply(iters[i].w, o, k).ret
CloneIter(i, j) ==
  /\ iters[i] # Nil
  /\ iters' = [iters EXCEPT ![j] = iters[i]]
  /\ UNCHANGED << rules, params, frames >>
EndIter(i) ==
  /\ iters[i] # Nil
  /\ iters' = [iters EXCEPT ![i] = Nil]
  /\ UNCHANGED << rules, params, frames >>

(* ------------------------------ parameters ------------------------------ *)
SetParam(d, v) == /\ params' = [params EXCEPT ![d] = v]
                  /\ UNCHANGED << rules, iters, frames >>

(* ------------------------------ integration ----------------------------- *)
\* the call; m is the number of evaluations it will make, fault the evaluation that panics (0: none)
Begin(r, m, fault) ==
  /\ frames' = Append(frames, [rule |-> r, todo |-> 1..m, done |-> << >>, fault |-> fault])
  /\ UNCHANGED << rules, iters, params >>
Top == frames[Len(frames)]
Below == SubSeq(frames, 1, Len(frames) - 1)
\* one evaluation of the integrand, at any sample point not yet evaluated
Evaluate(p) ==
  /\ frames # << >> /\ p \in Top.todo /\ Len(Top.done) + 1 # Top.fault
  /\ frames' = Append(Below, [Top EXCEPT !.todo = @ \ {p}, !.done = Append(@, p)])
  /\ UNCHANGED << rules, iters, params >>
\* the integrand panics: the integration ends with that panic, nothing else changes
Fault ==
  /\ frames # << >> /\ Top.todo # {} /\ Len(Top.done) + 1 = Top.fault
  /\ frames' = Below
  /\ UNCHANGED << rules, iters, params >>
Return ==
  /\ frames # << >> /\ Top.todo = {}
  /\ frames' = Below
  /\ UNCHANGED << rules, iters, params >>
\* a complete integration seen from outside: Begin, every Evaluate in some order, Return
Call(r) == UNCHANGED vars
=============================================================================
