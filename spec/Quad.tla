-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* What one integration is: which abscissae are evaluated, and which       *)
(* weighted sum is returned.  All comparisons are exact (dyadic rationals) *)
(* against error bounds for any order of evaluation and summation, so they *)
(* apply to the sequential and to every schedule of the parallel methods.  *)
(*                                                                         *)
(* A rule is [fam, n, items]; items are its node-weight pairs (Gauss).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, BigInt, F64, Fix, TLC
LOCAL XX(p) == << p[1], p[2] >>
LOCAL WW(p) == << p[3], p[4] >>

\* degrees of fixed-step rules reach 2^32-1: wrapped into negative numbers
N32(n) == IF n >= 0 THEN BInt(n) ELSE BAdd(BInt(n), B2p32)
IsNC(fam) == fam \in {"Midpoint", "Simpson", "Trapezoid"}
Unbounded(fam) == fam \in {"Laguerre", "Hermite"}

\* number of evaluations
Evals(fam, n) == CASE fam = "Midpoint" -> n [] fam = "Trapezoid" -> n + 1 [] fam = "Simpson" -> 2*n + 1 [] OTHER -> n

(* Abscissa i is Target[i] / Den, its coefficient is Coef[i]; the result is  *)
(* L * sum(Coef*y) / ResDen with L = b - a (1 for the unbounded rules).      *)
Den(fam, n) == CASE IsNC(fam) -> 2 * n [] Unbounded(fam) -> 1 [] OTHER -> 2
ResDen(fam, n) == CASE fam = "Midpoint" -> n [] fam = "Trapezoid" -> 2 * n [] fam = "Simpson" -> 6 * n
                    [] Unbounded(fam) -> 1 [] OTHER -> 2
Target(fam, n, items, a, b, i) == \* 1-based
  LET L == DySub(b, a)
      At(j) == DyAdd(DyMul(DyI(2 * n), a), DyMul(L, DyI(j)))   \* the point a + j/(2n) (b-a), times 2n
  IN CASE fam = "Midpoint" -> At(2*i - 1)
       [] fam = "Trapezoid" -> At(2*(i - 1))
       [] fam = "Simpson" -> At(i - 1)
       [] Unbounded(fam) -> Dy(XX(items[i]))
       [] OTHER -> DyAdd(DyMul(L, Dy(XX(items[i]))), DyAdd(a, b))
Coef(fam, n, items, i) ==
  CASE fam = "Midpoint" -> DyI(1)
    [] fam = "Trapezoid" -> DyI(IF i = 1 \/ i = n + 1 THEN 1 ELSE 2)
    [] fam = "Simpson" -> DyI(IF i = 1 \/ i = 2*n + 1 THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2)
    [] OTHER -> Dy(WW(items[i]))
Length(fam, a, b) == IF Unbounded(fam) THEN DyI(1) ELSE DySub(b, a)

(* the expected evaluations in ascending order of abscissa: <<target, coef>> *)
Sorted(q) == SortSeq(q, LAMBDA u, v : DyCmp(u[1], v[1]) < 0)
InOrder(q) == \A i \in 1..(Len(q) - 1) : DyCmp(q[i][1], q[i + 1][1]) <= 0
Expected(fam, n, items, a, b) ==
  LET m == Evals(fam, n)
      rev == ~Unbounded(fam) /\ DyCmp(b, a) < 0
      raw == [i \in 1..m |-> LET k == IF rev THEN m + 1 - i ELSE i
                             IN << Target(fam, n, items, a, b, k), Coef(fam, n, items, k) >>]
  IN IF InOrder(raw) THEN raw ELSE Sorted(raw)

Tiny == -1073    \* exponent of twice the smallest double
(* tolerance of an abscissa, times Den *)
PointTol(fam, n, a, b) ==
  IF Unbounded(fam) THEN DyZero
  ELSE DyMul(DyI(Den(fam, n)),
             DyAdd(DyShl(DyAdd(DyAbs(a), DyAbs(b)), 4 - 53),
                   << BInt(IF IsNC(fam) THEN 2 * n + 8 ELSE 8), Tiny >>))

EX(e) == << e[1], e[2] >>
EY(e) == << e[3], e[4] >>
\* positions (ascending) where the recorded abscissa is not the expected one
PointsBad(fam, n, exp, a, b, evs) ==
  LET d == TLCEval(DyI(Den(fam, n)))
      tol == TLCEval(PointTol(fam, n, a, b))
  IN { i \in 1..Len(exp) :
         ~IsFin(EX(evs[i])) \/ DyCmp(tol, DyAbs(DySub(DyMul(d, Dy(EX(evs[i]))), exp[i][1]))) < 0 }

(* Points closer to each other than the tolerance may have been evaluated in any order among them, so which *)
(* value belongs to which coefficient is not known: how much the sum may change by exchanging them.          *)
Blur(fam, n, exp, a, b, evs) ==
  LET near == TLCEval(DyShl(PointTol(fam, n, a, b), 1))
      flush(st) == DyAdd(st[4], IF DyCmp(st[2], st[3]) = 0 THEN DyZero ELSE DyMul(st[1], DySub(st[3], st[2])))
      fin == FoldLeft(LAMBDA st, i :
               LET y == Dy(EY(evs[i]))
                   c == DyAbs(exp[i][2])
               IN IF i > 1 /\ DyLe(DySub(exp[i][1], exp[i - 1][1]), near)
                  THEN << DyAdd(st[1], c), IF DyCmp(y, st[2]) < 0 THEN y ELSE st[2], IF DyCmp(st[3], y) < 0 THEN y ELSE st[3], st[4] >>
                  ELSE << c, y, y, flush(st) >>,
               << DyZero, DyZero, DyZero, DyZero >>, [i \in 1..Len(exp) |-> i])
  IN flush(fin)
(* the returned value, given finite integrand values *)
ValueOk(fam, n, exp, a, b, evs, val) ==
  LET m == Len(exp)
      L == Length(fam, a, b)
      terms == [i \in 1..m |-> DyMul(exp[i][2], Dy(EY(evs[i])))]
      S == FoldLeft(LAMBDA s, t : DyAdd(s, t), DyZero, terms)
      A == FoldLeft(LAMBDA s, t : DyAdd(s, DyAbs(t)), DyZero, terms)
      rd == DyI(ResDen(fam, n))
      exact == DyMul(L, S)
      \* sizes of intermediate results, in whatever order the three factors are multiplied
      Y == FoldLeft(LAMBDA s, e : DyAdd(s, DyAbs(Dy(EY(e)))), DyZero, evs)
      C == FoldLeft(LAMBDA s, q : DyAdd(s, DyAbs(q[2])), DyZero, exp)
      most(p) == DyLe(<< BInt(1), 1022 >>, p) \/ DyLe(<< BInt(1), 1022 >>, DyMul(DyAbs(L), p))
      bound == DyAdd(DyShl(DyMul(DyMul(DyAbs(L), A), DyI(m + 16)), -52),
                     DyMul(rd, << BAdd(BInt(m + 8), BAdd(BAdd(DyFxUp(Y), DyFxUp(C)), BAdd(DyFxUp(A), DyFxUp(DyAbs(L))))), Tiny >>))
  IN IF IsFin(val)
     THEN LET off == DyAbs(DySub(DyMul(rd, Dy(val)), exact))
          IN DyLe(off, bound) \/ DyLe(off, DyAdd(bound, DyMul(DyAbs(L), Blur(fam, n, exp, a, b, evs))))
     ELSE \* only if a partial result may overflow, before or after scaling
          \/ DyLe(DyMul(rd, << BInt(1), 1022 >>), DyMul(DyAbs(L), A))
          \/ DyLe(<< BInt(1), 1022 >>, A) \/ most(Y) \/ most(C)

(* the integrand c + s x, for degrees whose evaluations are too many to record: every rule on a bounded *)
(* interval integrates it (times its weight function) exactly                                           *)
BigEvals(fam, n) ==
  LET m == N32(n)
  IN CASE fam = "Trapezoid" -> BAdd(m, BInt(1)) [] fam = "Simpson" -> BAdd(BMul(BInt(2), m), BInt(1)) [] OTHER -> m
\* half the total weight
HalfMass(fam) == CASE fam = "Cheb1" -> << Pi, -F - 1 >> [] fam = "Cheb2" -> << Pi, -F - 2 >> [] OTHER -> DyI(1)
(* The sample points of a fixed-step rule are a + q/(2n) (b-a), q = 1, 3, 5 .. (midpoint), 0, 2, 4 .. (trapezoid), *)
(* 0, 1, 2 .. 2n (Simpson).  The recorded abscissae (ascending) between two of these positions are exactly they.    *)
WindowOk(fam, n, a, b, qlo, qhi, xs) ==
  LET m2 == BMul(BInt(2), N32(n))
      odd(q) == BSign(BMod(q, BInt(2))) # 0
      w == BToInt(BSub(qhi, qlo))
      all == [i \in 1..(w + 1) |-> BAdd(qlo, BInt(i - 1))]
      up == SelectSeq(all, LAMBDA q : CASE fam = "Midpoint" -> odd(q) [] fam = "Trapezoid" -> ~odd(q) [] OTHER -> TRUE)
      L == DySub(Dy(b), Dy(a))
      qs == IF DyCmp(Dy(b), Dy(a)) < 0 THEN Reverse(up) ELSE up
      target(q) == DyAdd(DyMul(<< m2, 0 >>, Dy(a)), DyMul(L, << q, 0 >>))
      tol == DyMul(<< m2, 0 >>, DyShl(DyAdd(DyAbs(Dy(a)), DyAbs(Dy(b))), 4 - 53))
  IN /\ Len(xs) = Len(qs)
     /\ \A i \in 1..Len(qs) : DyLe(DyAbs(DySub(DyMul(<< m2, 0 >>, Dy(xs[i])), target(qs[i]))), tol)
\* positions are well separated in double precision
Resolved(n, a, b) ==
  LET L == DyAbs(DySub(Dy(b), Dy(a)))
  IN DyLe(DyMul(<< N32(n), 14 - 52 >>, DyAdd(DyAbs(Dy(a)), DyAbs(Dy(b)))), L)
(* Over all evaluations: the sums of the positions and of their squares (modulo 2^64) are those of every position *)
(* taken once, and no evaluation is away from a position.                                                         *)
Two64 == BShl(BInt(1), 64)
PosSum(fam, n) ==
  LET m == N32(n)
  IN CASE fam = "Midpoint" -> BMul(m, m) [] fam = "Trapezoid" -> BMul(m, BAdd(m, BInt(1)))
       [] OTHER -> BMul(m, BAdd(BMul(BInt(2), m), BInt(1)))
PosSum2(fam, n) ==
  LET m == N32(n)
      m1 == BAdd(m, BInt(1))
      d1 == BAdd(BMul(BInt(2), m), BInt(1))
  IN CASE fam = "Midpoint" -> BDiv(BMul(m, BSub(BMul(BInt(4), BMul(m, m)), BInt(1))), BInt(3))
       [] fam = "Trapezoid" -> BDiv(BMul(BMul(BInt(2), m), BMul(m1, d1)), BInt(3))
       [] OTHER -> BDiv(BMul(BMul(m, d1), BAdd(BMul(BInt(4), m), BInt(1))), BInt(3))
PositionsOk(fam, n, a, b, s1, s2, off) ==
  Resolved(n, a, b) => /\ s1 = BMod(PosSum(fam, n), Two64)
                       /\ s2 = BMod(PosSum2(fam, n), Two64)
                       /\ off <= 10000 \* millionths
LinearOk(fam, n, a, b, c, s, val) ==
  LET L == DySub(Dy(b), Dy(a))
      exact2 == DyMul(HalfMass(fam), DyMul(L, DyAdd(DyMul(DyI(2), Dy(c)), DyMul(Dy(s), DyAdd(Dy(a), Dy(b))))))
      size == DyMul(DyAbs(L), DyAdd(DyAbs(Dy(c)), DyMul(DyAbs(Dy(s)), DyAdd(DyAbs(Dy(a)), DyAbs(Dy(b))))))
      bound == DyMul(DyMul(HalfMass(fam), size), << BAdd(BigEvals(fam, n), BInt(64)), -52 >>)
  IN IsFin(val) /\ DyLe(DyAbs(DySub(DyMul(DyI(2), Dy(val)), exact2)), bound)

FiniteYs(evs) == \A i \in 1..Len(evs) : IsFin(EY(evs[i]))
SomeNaN(evs) == \E i \in 1..Len(evs) : IsNaN(EY(evs[i]))

(* The judgement of one completed integration: violated clauses. *)
IntegBad(fam, n, items, a, b, evs, val) ==
  LET m == Evals(fam, n)
      da == IF Unbounded(fam) THEN DyZero ELSE Dy(a)
      db == IF Unbounded(fam) THEN DyZero ELSE Dy(b)
      exp == TLCEval(Expected(fam, n, items, da, db))
  IN IF Len(evs) # m THEN { << "evcount", Len(evs) >> }
     ELSE LET pb == TLCEval(PointsBad(fam, n, exp, da, db, evs))
          IN { << "evpoint", i >> : i \in pb }
             \cup (IF pb # {} THEN {}
                   ELSE IF FiniteYs(evs)
                   THEN (IF ValueOk(fam, n, exp, da, db, evs, val) THEN {} ELSE { << "value", 0 >> })
                   ELSE IF SomeNaN(evs)
                   THEN (IF IsNaN(val) THEN {} ELSE { << "swallow", 0 >> })
                   ELSE (IF IsFin(val) THEN { << "swallow", 0 >> } ELSE {}))
=============================================================================
