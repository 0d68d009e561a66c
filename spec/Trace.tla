-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions of the implementation.                *)
(*                                                                         *)
(* Each line of the trace file is one job: the calls one program made, in  *)
(* order, with arguments and everything observable about their outcome.    *)
(* Every step must be an action of GaussQuad taken with those arguments,   *)
(* with the recorded outcome.  What the outcome has to be is a set of      *)
(* clauses (Judge): a recorded step that breaks some is reported with the  *)
(* names of the clauses, the state is then set to what was recorded, and   *)
(* the rest of the trace is still checked.                                 *)
(*                                                                         *)
(* GaussQuad leaves the data of a Gauss rule opaque.  Here it is the       *)
(* digest dg of the recorded node-weight pairs; pairs at[dg] tells which   *)
(* step recorded them.  memo holds what construction and sequential        *)
(* integration returned for given arguments: they are functions.           *)
(***************************************************************************)
EXTENDS GaussQuad, Rules, Quad, Params, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.TRACE)
Slots == 0..15

VARIABLES j,     \* the job
          l,     \* next step
          at,    \* digest -> step that recorded the pairs
          memo,  \* arguments -> outcome
          ys,    \* evaluations of the integrations in progress, with the values returned
          seen   \* number of steps judged
tvars == << rules, iters, params, frames, j, l, at, memo, ys, seen >>
Steps == Jobs[j].steps
Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
NoB == << 0, 0 >>

(* ------------------------- the data of a rule --------------------------- *)
Known(dg) == dg \in DOMAIN at
PairsOf(dg) == Steps[at[dg]].r.pairs
\* number of items of a rule
\* a Gauss rule has as many items as it has pairs, whatever degree it reports
EffN(r) == IF ~IsNC(r.fam) /\ Known(r.data) THEN Len(PairsOf(r.data)) ELSE r.n
TItems(r) == IF IsNC(r.fam) THEN N32(r.n) ELSE BInt(EffN(r))
\* the recorded abstract state of a rule
Proj(r) == [fam |-> r.fam, n |-> r.deg, al |-> Opt(r, "al", NoB), be |-> Opt(r, "be", NoB), data |-> r.dg]
SameP(u, v) == EqF(u.al, v.al) /\ EqF(u.be, v.be)
Same(u, v) == u.fam = v.fam /\ u.n = v.n /\ u.data = v.data /\ SameP(u, v)
\* == of two rules of one family; their data may differ in the signs of zeros
NoNaN(dg) == ~Known(dg) \/ \A i \in 1..Len(PairsOf(dg)) : ~IsNaN(X(PairsOf(dg)[i])) /\ ~IsNaN(W(PairsOf(dg)[i]))
EqData(d, e) ==
  IF d = e THEN NoNaN(d)
  ELSE /\ Known(d) /\ Known(e) /\ Len(PairsOf(d)) = Len(PairsOf(e))
       /\ \A i \in 1..Len(PairsOf(d)) : EqF(X(PairsOf(d)[i]), X(PairsOf(e)[i])) /\ EqF(W(PairsOf(d)[i]), W(PairsOf(e)[i]))
EqRules(u, v) == u.n = v.n /\ SameP(u, v) /\ EqData(u.data, v.data)

If(c, k) == IF c THEN {} ELSE { << k, 0 >> }
Memo(k) == IF k \in DOMAIN memo THEN memo[k] ELSE << >>
Remember(k, v) == IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> v)

(* ----------------------------- construction ----------------------------- *)
Par(s) == Opt(s, "par", 0) = 1
NKey(s) == << "new", s.fam, s.n, Opt(s, "al", NoB), Opt(s, "be", NoB) >>
HalfB == << 1071644672, 0 >>
NegHalfB == NegB(HalfB)
Twin(s) == \* the rule a special Jacobi rule must be identical to
  LET tw(f) == << "new", f, s.n, NoB, NoB >>
  IN IF s.fam # "Jacobi" THEN << >>
     ELSE IF IsZero(s.al) /\ IsZero(s.be) THEN tw("Legendre")
     ELSE IF s.al = HalfB /\ s.be = HalfB THEN tw("Cheb2")
     ELSE IF s.al = NegHalfB /\ s.be = NegHalfB THEN tw("Cheb1") ELSE << >>
TwinOk(s, dg) ==
  LET t == Twin(s) IN t = << >> \/ t \notin DOMAIN memo \/ memo[t] = dg
Mirror(s, r) == \* exchanging alpha and beta mirrors the rule: the mirrored rule, if recorded
  LET k == << "new", "Jacobi", s.n, s.be, s.al >>
  IN IF s.fam # "Jacobi" \/ ~Has(r, "pairs") \/ k \notin DOMAIN memo \/ ~Known(memo[k]) THEN {}
     ELSE LET ps == r.pairs
              qs == PairsOf(memo[k])
              tol == TLCEval(BMul(U, BInt(2 * TolX("Jacobi", s.n))))
          IN IF Len(ps) # Len(qs) THEN {}
             ELSE { << "mirror", i >> : i \in { q \in 1..Len(ps) : FinitePair(ps[q]) /\ FinitePair(qs[Len(ps) + 1 - q])
                      /\ ~IsMid("Jacobi", s.n, s.al, s.be, q)
                      /\ BLt(tol, BAbs(BAdd(Fx(X(ps[q])), Fx(X(qs[Len(ps) + 1 - q]))))) } }
JudgeNew(s, r) ==
  LET al == Opt(s, "al", NoB)
      be == Opt(s, "be", NoB)
      chk == Opt(s, "chk", "all")
      m == Memo(NKey(s))
  IN If(r.fam = s.fam, "fam") \cup If(r.deg = s.n, "deg")
     \cup If((Has(r, "al") => EqF(r.al, al)) /\ (Has(r, "be") => EqF(r.be, be)), "param")
     \cup If(m = << >> \/ m = r.dg, IF Par(s) THEN "parnew" ELSE "det")
     \cup If(TwinOk(s, r.dg), "delegate")
     \cup Mirror(s, r)
     \cup (IF IsNC(s.fam) THEN {} ELSE
           If(~Has(r, "np") \/ r.np = s.n, "count")
           \cup (IF Has(r, "pairs") /\ chk \in {"all", "struct", "some"} /\ (Representable(s.fam, PA(s.fam, al), PB(s.fam, be)))
                 THEN StructBad(s.fam, s.n, al, be, r.pairs) ELSE {})
           \cup (IF Has(r, "pairs") /\ chk = "all" /\ Len(r.pairs) = s.n /\ (Representable(s.fam, PA(s.fam, al), PB(s.fam, be)))
                 THEN AccBad(s.fam, s.n, al, be, [i \in 1..Len(r.pairs) |-> << i >> \o r.pairs[i]]) ELSE {})
           \cup (IF Has(r, "pairs") /\ chk = "some" /\ Len(r.pairs) = s.n /\ (Representable(s.fam, PA(s.fam, al), PB(s.fam, be)))
                 THEN AccBad(s.fam, s.n, al, be, [i \in 1..Len(s.at) |-> << s.at[i] >> \o r.pairs[s.at[i]]]) ELSE {})
           \cup (IF Has(r, "idx") /\ chk = "all"
                 THEN AccBad(s.fam, s.n, al, be, r.idx)
                      \cup (IF s.fam = "Legendre"
                            THEN { << "order", r.idx[q][1] >> : q \in { q \in 1..Len(r.idx) :
                                     LET p == << r.idx[q][2], r.idx[q][3], r.idx[q][4], r.idx[q][5] >>
                                     IN FinitePair(p) /\ ~LegIndexOk(s.n, r.idx[q][1], p) } }
                            ELSE {})
                 ELSE {}))

(* ------------------------------ integration ----------------------------- *)
IKey(q, s) == << "integ", q.data, q.fam, q.n, Opt(s, "a", NoB), Opt(s, "b", NoB), s.f, Opt(s, "i", 0), IF s.op = "begin" THEN "integ" ELSE s.op >>
\* an outcome: the value (one NaN is as good as another) and the number of evaluations
IVal(r) == << IF IsNaN(r.val) THEN QNaN ELSE r.val, r.calls >>
\* both below 2^1022 in magnitude: nothing overflows before the integrand is involved
FiniteBounds(a, b) == ExpF(a) <= 2044 /\ ExpF(b) <= 2044
\* clauses of the parallel methods have names of their own
Pref(s, S) == IF Par(s) THEN { << "par" \o c[1], c[2] >> : c \in S } ELSE S
Small(q) == IsNC(q.fam) => (q.n > 0 /\ q.n < 100000000)
NEvals(q) == Evals(q.fam, EffN(q))
ItemsOf(q) == IF IsNC(q.fam) \/ ~Known(q.data) THEN << >> ELSE PairsOf(q.data)
\* can the points and the value be judged?  (all pairs recorded and finite, representable interval)
Judged(q, s) ==
  /\ Small(q)
  /\ IsNC(q.fam) \/ (Known(q.data) /\ \A i \in 1..EffN(q) : FinitePair(PairsOf(q.data)[i]))
  /\ Unbounded(q.fam) \/ FiniteBounds(Opt(s, "a", NoB), Opt(s, "b", NoB))
FaultAt(s) == Opt(s.f, "panic_at", 0)
MustPanic(q, s) == s.f.kind = "fault_x" \/ (FaultAt(s) > 0 /\ (~Small(q) \/ FaultAt(s) <= NEvals(q)))
Count(s, ok, c) == Pref(s, IF ok THEN {} ELSE { << "evcount", c >> })
U64(b) == BAdd(BShl(LoU(b[1]), 32), LoU(b[2]))
JudgeFast(q, s, r) ==
  IF Has(r, "panic") THEN { << "panic", 0 >> }
  ELSE Count(s, U64(r.callsb) = BigEvals(q.fam, q.n), r.calls)
       \cup Pref(s, If(~IsNC(q.fam) \/ PositionsOk(q.fam, q.n, s.a, s.b, U64(r.q1), U64(r.q2), r.off), "evpoint"))
       \cup Pref(s, UNION { If(WindowOk(q.fam, q.n, s.a, s.b, U64(s.f.win[k].qlo), U64(s.f.win[k].qhi), r.win[k]), "evpoint") : k \in 1..Len(r.win) })
       \cup Pref(s, If(LinearOk(q.fam, q.n, Opt(s, "a", NoB), Opt(s, "b", NoB), s.f.c, s.f.s, r.val), "value"))
JudgeInteg(q, s, r) ==
  LET m == Memo(IKey(q, s))
  IN IF s.f.kind = "fast" THEN JudgeFast(q, s, r)
     ELSE IF Has(r, "panic")
     THEN IF ~MustPanic(q, s) THEN (IF Opt(s.f, "pass", 0) = 1 /\ r.ours = 1 THEN {} ELSE { << "panic", 0 >> })
          ELSE If(r.ours = 1, "foreignpanic")
               \cup (IF ~Small(q) \/ FaultAt(s) = 0 THEN {}
                     ELSE Count(s, IF Par(s) THEN FaultAt(s) <= r.calls /\ r.calls <= NEvals(q) ELSE r.calls = FaultAt(s), r.calls))
     ELSE If(~MustPanic(q, s), "nopanic")
          \cup Count(s, ~Small(q) \/ r.calls = NEvals(q), r.calls)
          \cup (IF Judged(q, s) /\ Has(r, "ev") /\ r.calls = NEvals(q)
                THEN Pref(s, IntegBad(q.fam, EffN(q), ItemsOf(q), Opt(s, "a", NoB), Opt(s, "b", NoB), r.ev, r.val)) ELSE {})
          \cup (IF Par(s) THEN {} ELSE If(m = << >> \/ m = IVal(r), "det"))

(* the same, one evaluation at a time: events begin, eval, return, fault      *)
\* the sample points not yet evaluated that abscissa x may be
Matches(x) ==
  LET f == Top
      q == f.rule
      a == IF Unbounded(q.fam) THEN DyZero ELSE Dy(f.a)
      b == IF Unbounded(q.fam) THEN DyZero ELSE Dy(f.b)
      tol == TLCEval(PointTol(q.fam, EffN(q), a, b))
  IN IF ~IsFin(x) THEN {}
     ELSE { p \in f.todo : DyCmp(DyAbs(DySub(DyMul(DyI(Den(q.fam, EffN(q))), Dy(x)),
                                             Target(q.fam, EffN(q), ItemsOf(q), a, b, p))), tol) <= 0 }
Ascending(q) == SortSeq(q, LAMBDA u, v : DyCmp(Dy(EX(u)), Dy(EX(v))) < 0)

(* ------------------------------- iterators ------------------------------ *)
\* a position of the sequence an iterator of a kind ranges over, as recorded items
F64Of(i) == RoundDy(FALSE, i, 0)
Item(it, i) == \* i: BigInt position
  IF IsNC(it.rule.fam) THEN F64Of(i)
  ELSE LET p == PairsOf(it.rule.data)[BToInt(i) + 1]
       IN CASE it.kind = "nodes" -> X(p) [] it.kind = "weights" -> W(p) [] OTHER -> p
RECURSIVE ItemsFrom(_, _, _)
Rest(it) == [i \in 1..BToInt(it.w.len) |-> Item(it, BAdd(it.w.lo, BInt(i - 1)))]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
EveryOther(q) == [i \in 1..((Len(q) + 1) \div 2) |-> q[2 * i - 1]]
Tail1(q) == IF q = << >> THEN << >> ELSE Tail(q)
ItemsFrom(it, a, b) == IF a > b THEN << >> ELSE << Item(it, BInt(a)) >> \o ItemsFrom(it, a + 1, b)
ItemOrNone(it, ret) == IF ret = None THEN << >> ELSE Item(it, ret[1])
Wrap32(v) == Sgn32(BMod(v, B2p32))
IterReady(it) == IsNC(it.rule.fam) \/ Known(it.rule.data)
KOf(s) == IF Has(s, "kb") THEN U64(s.kb) ELSE BInt(Opt(s, "k", 0))
Expect(it, o, k) ==
  CASE o \in Mutators -> ItemOrNone(it, Apply(it.w, o, k).ret)
    [] o \in {"len", "count", "rcount"} -> << Wrap32(it.w.len) >>
    [] o = "size_hint" -> << Wrap32(it.w.len), Wrap32(it.w.len) >>
    [] o = "last" -> ItemOrNone(it, NextB(it.w).ret)
    [] o = "first" -> ItemOrNone(it, NextF(it.w).ret)
    [] o \in {"rest", "rest_fold", "rest_vec", "as_slice", "as_ref"} -> Rest(it)
    [] o \in {"rest_rev", "rest_rfold"} -> Rev(Rest(it))
    [] o = "rest_try" -> LET q == Rest(it)
                             m == Len(q)
                         IN IF m <= 1 THEN q ELSE << q[1], q[m] >> \o SubSeq(q, 2, m - 1)
    [] o = "rest_alt" -> LET q == Rest(it)
                         IN [i \in 1..Len(q) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE q[Len(q) + 1 - i \div 2]] \o << << 0 >> >>
    [] o = "rest_zip" -> LET q == Rest(it)
                         IN [i \in 1..(2 * Len(q)) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE q[Len(q) + 1 - i \div 2]]
    [] o = "rest_pos" -> IF BLt(k, it.w.len) THEN << BToInt(k), BToInt(it.w.len) - 1 - BToInt(k) >> ELSE << -1, -1 >>
    [] o = "rest_rev_step2" -> EveryOther(Rev(Rest(it)))
    [] o = "rest_by_ref" -> Rest(it) \o << << >>, << >> >>
    [] o = "rest_step2" -> EveryOther(Rest(it))
    [] o = "rest_skip1_rev" -> Rev(Tail1(Rest(it)))
Drains == {"rest", "rest_fold", "rest_vec", "as_slice", "as_ref", "rest_rev", "rest_rfold", "rest_try", "rest_alt", "rest_zip",
           "rest_rev_step2", "rest_by_ref", "rest_step2", "rest_skip1_rev"}
JudgeIter(it, o, k, r) ==
  IF Has(r, "na") THEN If(o \in {"as_slice", "as_ref"} /\ (it.kind \in {"nodes", "weights"} \/ IsNC(it.rule.fam)), "iter")
  ELSE IF ~IterReady(it)
  THEN IF o \in {"len", "count", "rcount", "size_hint"} THEN If(r.v = Expect(it, o, k), "iter") ELSE {}
  \* all of the items are returned: at least every other one
  ELSE If(~(o \in Drains /\ BLt(BInt(2 * Len(r.v) + 4), it.w.len)) /\ r.v = Expect(it, o, k), "iter")

(* --------------------------------- views -------------------------------- *)
JudgeViews(q, r) ==
  IF IsNC(q.fam)
  THEN LET all == [i \in 1..q.n |-> F64Of(BInt(i - 1))]
       IN If(r.deg = q.n /\ Len(r.iter) = q.n /\ r.iter = all /\ r.ref = all /\ r.into = all, "view")
  ELSE IF ~Known(q.data) THEN {}
  ELSE LET ps == PairsOf(q.data)
           all == \A v \in {"iter", "ref", "into", "slice", "boxed", "again"} : r[v] = ps
       IN If(/\ r.deg = q.n /\ r.deg = Len(ps) /\ all
             /\ r.nodes = [i \in 1..Len(ps) |-> X(ps[i])] /\ r.weights = [i \in 1..Len(ps) |-> W(ps[i])], "view")

(* ------------------------------ parameters ------------------------------ *)
PV(x) == [v |-> x]   \* a parameter in a slot
ValidIf(r) == If(~Has(r, "some") \/ Valid(r.some), "pvalid")
JudgeParam(s, r) ==
  ValidIf(r) \cup
  CASE s.op \in {"p_new", "p_try"} -> If(OptIs(r, s.x), "pvalid")
    [] s.op = "p_default" -> If(OptIs(r, ZeroB), "pvalid")
    [] s.op = "p_op" -> If(params[s.src] = PV(r.x), "pvalue") \cup If(OpOk(s.o, r.x, s.y, r), "pround")
    [] s.op = "p_into" -> If(params[s.src] = PV(r.get) /\ r.into = r.get /\ r.copy = r.get, "pvalue")
    [] s.op = "p_cmp" ->
         LET c == Cmp64(r.x, r.y)
         IN If(r.cmp = c /\ r.eq = (IF c = 0 THEN 1 ELSE 0) /\ r.lt = (IF c < 0 THEN 1 ELSE 0) /\ r.le = (IF c <= 0 THEN 1 ELSE 0), "pcmp")
    [] s.op = "p_parse" -> If(ParseOk(s.s, r), "pparse")
    [] s.op = "p_fmt" -> If(params[s.src] = PV(r.x), "pvalue") \cup If(FmtOk(r.s, r.x) /\ Has(r.back, "some") /\ SameBits(r.back.some, r.x), "pfmt")
    [] s.op = "p_ser" -> If(params[s.src] = PV(r.x) /\ Has(r, "some") /\ r.some = r.x, "ser")
    [] s.op = "p_de" -> If(OptIs(r, s.x), "de")
    [] s.op = "p_bytes" -> If(params[s.src] = PV(r.x) /\ r.some = r.x /\ r.zero = ZeroB, "ser")

(* -------------------- one recorded step = one action -------------------- *)
Report(s, S) == IF S = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([job |-> Jobs[j].id, step |-> l, op |-> s.op, bad |-> SetToSeq(S)]))
Learn(r) == IF Has(r, "pairs") /\ r.dg \notin DOMAIN at THEN at' = at @@ (r.dg :> l) ELSE UNCHANGED at
Thread(s) == Has(s, "thread")   \* a step of a concurrent thread: it has slots of its own
Outcome(s, S) == Report(s, S) /\ seen' = seen + 1
Skip(s) == UNCHANGED << rules, iters, params, frames, at, memo, ys, seen >>
Failed(s) == \* the call itself panicked
  /\ Outcome(s, { << "panic", 0 >> }) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>

StepNew(s, r) ==
  /\ Outcome(s, JudgeNew(s, r))
  /\ IF Thread(s) THEN UNCHANGED << rules, iters, params, frames >> ELSE NewRule(s.dst, Proj(r))
  /\ memo' = Remember(NKey(s), r.dg)
  /\ Learn(r) /\ UNCHANGED ys
\* the projection of a rule that must be the given one
Must(s, r, q, k) == Outcome(s, If(Same(Proj(r), q), k)) /\ Learn(r) /\ UNCHANGED << memo, ys >>
StepRule(s, r) ==
  LET q == rules[s.src]
  IN CASE s.op = "state" -> Must(s, r, q, "reread") /\ UNCHANGED vars
       [] s.op \in {"clone", "clone_from"} -> Must(s, r, q, "clone") /\ CloneRule(s.src, s.dst)
       [] s.op = "ser" ->
            IF Has(r, "err") THEN Outcome(s, { << "ser", 0 >> }) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>
            ELSE Must(s, r, q, "ser") /\ ReviveRule(s.src, s.dst)
       [] s.op = "edit" -> \* whatever its pairs are now
            Outcome(s, If(Proj(r).fam = q.fam /\ Proj(r).n = Opt(s, "grow", q.n) /\ SameP(Proj(r), q), "ser"))
            /\ EditRule(s.src, s.dst, Opt(s, "grow", q.n), r.dg) /\ Learn(r) /\ UNCHANGED << memo, ys >>
       [] s.op = "move" -> Must(s, r, q, "move") /\ MoveRule(s.src, s.dst)
       [] s.op = "drop" -> Outcome(s, {}) /\ DropRule(s.src) /\ UNCHANGED << at, memo, ys >>
       [] s.op = "conv" -> Must(s, r, IF q.fam = "Jacobi" THEN q ELSE JacobiOf(q, ZeroB, HalfB, NegHalfB), "convdata")
                           /\ (IF q.fam = "Jacobi" THEN CloneRule(s.src, s.dst) ELSE ConvRule(s.src, s.dst, ZeroB, HalfB, NegHalfB))
       [] s.op = "change_degree" -> Must(s, r, [q EXCEPT !.n = s.n], "change") /\ SetDegree(s.src, s.n)
       [] s.op = "views" -> Outcome(s, JudgeViews(q, r)) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>
       [] s.op = "debug" -> Outcome(s, If(r.len > 0, "debug")) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>
StepEq(s, r) ==
  LET e == EqRules(rules[s.src], rules[s.src2])
  IN /\ Outcome(s, IF rules[s.src].fam # rules[s.src2].fam THEN If(Has(r, "na"), "eq")
                   ELSE If(r.eq = (IF e THEN 1 ELSE 0) /\ r.ne = 1 - r.eq, "eq"))
     /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>
StepInteg(s, r) ==
  LET q == rules[s.src]
  IN /\ Outcome(s, JudgeInteg(q, s, r))
     /\ Call(q)
     /\ memo' = IF Par(s) \/ Has(r, "panic") \/ s.f.kind = "fast" THEN memo ELSE Remember(IKey(q, s), IVal(r))
     /\ UNCHANGED << at, ys >>
\* fine-grained integrations
StepBegin(s) ==
  LET q == rules[s.src] m == NEvals(q)
  IN IF ~Small(q) \/ m > 1000000 THEN Skip(s) ELSE
     /\ Outcome(s, {})
     /\ frames' = Append(frames, [rule |-> q, todo |-> 1..m, done |-> << >>, fault |-> IF FaultAt(s) <= m THEN FaultAt(s) ELSE 0,
                                  a |-> Opt(s, "a", NoB), b |-> Opt(s, "b", NoB), f |-> s.f, par |-> Par(s),
                                  key |-> IF Par(s) \/ s.f.kind = "nest" THEN << >> ELSE IKey(q, s)])
     /\ ys' = Append(ys, << >>)
     /\ UNCHANGED << rules, iters, params, at, memo >>
StepEval(s, r) ==
  LET c == Matches(EX(r))
      k == IF Top.par THEN "parevpoint" ELSE "evpoint"
  IN IF c # {} /\ (Top.par \/ Len(Top.done) + 1 # Top.fault)
     THEN /\ Outcome(s, {}) /\ (\E p \in {CHOOSE p \in c : \A p2 \in c : p <= p2} :
               frames' = Append(Below, [Top EXCEPT !.todo = @ \ {p}, !.done = Append(@, p)]))
          /\ ys' = [ys EXCEPT ![Len(ys)] = Append(@, r)]
          /\ UNCHANGED << rules, iters, params, at, memo >>
     ELSE Outcome(s, { << k, Len(Top.done) + 1 >> }) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>
StepReturn(s, r) ==
  LET q == Top.rule
      k == IF Top.par THEN "par" ELSE ""
      evs == TLCEval(Ascending(ys[Len(ys)]))
      bad == IF Top.todo # {} \/ Top.fault # 0 THEN { << k \o (IF Top.fault # 0 THEN "nopanic" ELSE "evcount"), Cardinality(Top.todo) >> }
             ELSE { << k \o c[1], c[2] >> : c \in IntegBad(q.fam, EffN(q), ItemsOf(q), Top.a, Top.b, evs, r.val) }
      m == Memo(Top.key)
  IN /\ Outcome(s, bad \cup If(Top.key = << >> \/ m = << >> \/ m = IVal(r), "det"))
     /\ memo' = IF Top.key = << >> THEN memo ELSE Remember(Top.key, IVal(r))
     /\ (IF bad = {} THEN Return ELSE frames' = Below /\ UNCHANGED << rules, iters, params >>)
     /\ ys' = SubSeq(ys, 1, Len(ys) - 1) /\ UNCHANGED at
StepFault(s, r) ==
  LET pass == Opt(Top.f, "pass", 0) = 1
      own == Top.todo # {} /\ Top.fault # 0 /\ (Top.par \/ Len(Top.done) + 1 = Top.fault)
      bad == If(r.ours = 1, "foreignpanic") \cup If(own \/ pass, IF own THEN "panic" ELSE "evcount")
  IN /\ Outcome(s, bad)
     /\ (IF own /\ ~Top.par THEN Fault ELSE frames' = Below /\ UNCHANGED << rules, iters, params >>)
     /\ ys' = SubSeq(ys, 1, Len(ys) - 1) /\ UNCHANGED << at, memo >>
StepIt(s, r) ==
  /\ CASE s.op = "iopen" -> OpenIter(s.src, s.kind, s.it) /\ Outcome(s, {})
       [] s.op = "iclone" -> CloneIter(s.it, s.dst) /\ Outcome(s, {})
       [] s.op = "iop" -> Outcome(s, JudgeIter(iters[s.it], s.o, KOf(s), r)) /\ StepIter(s.it, s.o, KOf(s))
       [] s.op = "ifin" -> Outcome(s, JudgeIter(iters[s.it], s.o, BInt(0), r)) /\ EndIter(s.it)
  /\ UNCHANGED << at, memo, ys >>
StepParam(s, r) ==
  /\ Outcome(s, JudgeParam(s, r))
  /\ IF Has(s, "dst") THEN SetParam(s.dst, IF Has(r, "some") THEN PV(r.some) ELSE params[s.dst])
     ELSE UNCHANGED << rules, iters, params, frames >>
  /\ UNCHANGED << at, memo, ys >>

(* comparisons between recordings of the same calls (other build, other process, other order) *)
StepCompare(s) ==
  /\ Outcome(s,
       CASE s.op = "same" -> IF "na" \in DOMAIN s.u \/ "na" \in DOMAIN s.v THEN {} ELSE If(s.u = s.v, s.k)
         [] s.op = "near" -> IF ~Representable(s.fam, PA(s.fam, s.al), PB(s.fam, s.be)) THEN {}
                             ELSE IF Len(s.u) # s.n \/ Len(s.v) # s.n THEN { << "cfg", 0 >> }
                             ELSE NearBad(s.fam, s.n, s.al, s.be, s.u, s.v)
         [] s.op = "nearp" -> IF s.u = s.v THEN {}
                              ELSE IF s.o # "pow" THEN { << "cfgp", 0 >> }
                              ELSE IF Has(s.u, "some") /\ Has(s.v, "some") THEN If(BLe(Ulps(s.u.some, s.v.some), BInt(2 * Slack)), "cfgp")
                              ELSE {})   \* a power at the very edge of validity: each is judged by itself
  /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>

RuleOps == {"state", "clone", "clone_from", "ser", "edit", "move", "drop", "conv", "change_degree", "views", "debug"}
IterOps == {"iopen", "iclone", "iop", "ifin"}
\* does the step use a slot that is empty (because an earlier step failed, or a configuration lacks it)?
Dead(s) == \/ s.op \in RuleOps \cup {"integ", "integ_at", "iopen", "begin"} /\ rules[s.src] = Nil
           \/ s.op = "eq" /\ (rules[s.src] = Nil \/ rules[s.src2] = Nil)
           \/ s.op = "clone_from" /\ rules[s.dst] = Nil
           \/ s.op \in {"iclone", "iop", "ifin"} /\ iters[s.it] = Nil
           \/ s.op \in {"p_op", "p_into", "p_cmp", "p_fmt", "p_ser", "p_bytes"} /\ params[s.src] = Nil
           \/ s.op \in {"eval", "return", "fault"} /\ frames = << >>
NA(s) == s.op \notin {"iop", "ifin", "eval", "eq"} /\ Has(s.r, "na")
Do(s) ==
  LET r == s.r
  IN CASE Dead(s) \/ s.op = "conc" -> Skip(s)
       [] NA(s) -> Skip(s)
       [] s.op \notin {"integ", "integ_at", "eval", "fault"} /\ Has(r, "panic") -> Failed(s)
       [] s.op \in {"same", "near", "nearp"} -> StepCompare(s)
       [] s.op = "new" -> StepNew(s, r)
       [] s.op \in RuleOps -> StepRule(s, r)
       [] s.op = "eq" -> StepEq(s, r)
       [] s.op \in {"integ", "integ_at"} -> IF Has(r, "msg") THEN Failed(s) ELSE StepInteg(s, r)
       [] s.op = "begin" -> StepBegin(s)
       [] s.op = "eval" -> StepEval(s, r)
       [] s.op = "return" -> StepReturn(s, r)
       [] s.op = "fault" -> StepFault(s, r)
       [] s.op = "rep" -> Outcome(s, If(r.distinct = 1, "det")) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys >>
       [] s.op \in IterOps -> StepIt(s, r)
       [] OTHER -> StepParam(s, r)

TInit == /\ j \in 1..Len(Jobs) /\ l = 1
         /\ GQInit /\ at = << >> /\ memo = << >> /\ ys = << >> /\ seen = 0
TNext == /\ l <= Len(Steps) + 1
         /\ l' = l + 1 /\ j' = j
         /\ IF l <= Len(Steps) THEN Do(Steps[l])
            ELSE PrintT("@@DONE " \o ToJson(<< j, Jobs[j].id, Len(Steps), seen >>)) /\ UNCHANGED << rules, iters, params, frames, at, memo, ys, seen >>
TSpec == TInit /\ [][TNext]_tvars
TView == << j, l >>
=============================================================================
