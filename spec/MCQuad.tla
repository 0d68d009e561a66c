-------------------------------- MODULE MCQuad --------------------------------
(***************************************************************************)
(* Module Quad checked against what integration rules are.                 *)
(*  - The composite rules are exact for polynomials up to their degree,    *)
(*    and not beyond; weights sum to the length of the interval; turning   *)
(*    the interval round changes the sign and nothing else.                *)
(*  - The judgement of a recorded integration is right: the ideal          *)
(*    recording is accepted, and so is every one computed in double        *)
(*    precision with any order of summation; recordings with a missing,    *)
(*    repeated, moved evaluation, with a wrong value or with a swallowed   *)
(*    NaN are reported.                                                    *)
(***************************************************************************)
EXTENDS Quad
CONSTANTS Fams, MaxN, Bounds, Seeds, MaxPerm
VARIABLES fam, n, a, b, seed
qvars == << fam, n, a, b, seed >>

D(p) == RoundRat(FALSE, BInt(p[1]), BInt(p[2]))          \* a rational as a double
BoundSet == { << -1, 1 >>, << 0, 1 >>, << 1, 1 >>, << 5, 2 >>, << 1, 3 >>, << -7, 10 >> }
FewBounds == { << -1, 1 >>, << 1, 3 >>, << 5, 2 >> }
Init == /\ fam \in Fams /\ n = 1 /\ seed \in Seeds
        /\ a \in { D(p) : p \in Bounds } /\ b \in { D(p) : p \in Bounds }
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED << fam, a, b, seed >>
Spec == Init /\ [][Next]_qvars

m == Evals(fam, n)
L == Length(fam, Dy(a), Dy(b))
\* pseudo-random doubles in (-2, 2)
Rnd(k) == RoundRat(FALSE, BInt((((k * 7919 + seed * 10473 + 12345) * 1337) % 2000003) - 1000001), BInt(500000))
AbsB(x) == IF Neg(x) THEN NegB(x) ELSE x
PosRnd(k) == AbsB(Rnd(k))
\* node-weight pairs of an imaginary Gauss rule: ascending nodes, positive weights
Nodes == [i \in 1..n |-> D(<< 2 * i - n - 1, n + 1 >>)]
Items == IF IsNC(fam) THEN << >> ELSE [i \in 1..n |-> Nodes[i] \o PosRnd(i)]
Pts == Expected(fam, n, Items, Dy(a), Dy(b))

(* --------------------------- composite rules ---------------------------- *)
Degree == IF fam = "Simpson" THEN 3 ELSE 1
DyPow(x, k) == FoldLeft(LAMBDA p, i : DyMul(p, x), DyI(1), [i \in 1..k |-> i])
Integral(k) == DySub(DyPow(Dy(b), k + 1), DyPow(Dy(a), k + 1))          \* times k+1
RuleOn(k) == DyMul(L, FoldLeft(LAMBDA s, t : DyAdd(s, DyMul(t[2], DyPow(t[1], k))), DyZero, Pts))
\* both sides multiplied by ResDen * Den^k * (k+1)
ExactOn(k) == DyCmp(DyMul(DyI(k + 1), RuleOn(k)), DyMul(DyI(ResDen(fam, n)), DyMul(DyPow(DyI(Den(fam, n)), k), Integral(k)))) = 0
PolyExact == IsNC(fam) => \A k \in 0..Degree : ExactOn(k)
NotBeyond == (IsNC(fam) /\ a # b) => ~ExactOn(Degree + 1)
CoefSum == IsNC(fam) => DyCmp(FoldLeft(LAMBDA s, t : DyAdd(s, t[2]), DyZero, Pts), DyI(ResDen(fam, n))) = 0
Turned == (a # b /\ ~Unbounded(fam)) =>
  LET e == Expected(fam, n, IF IsNC(fam) THEN Items ELSE [i \in 1..n |-> NegB(Nodes[n + 1 - i]) \o PosRnd(n + 1 - i)], Dy(b), Dy(a))
  IN \A i \in 1..m : DyCmp(e[i][1], Pts[i][1]) = 0 /\ DyCmp(e[i][2], Pts[i][2]) = 0
Inside == ~Unbounded(fam) =>
  LET lo == IF DyLe(Dy(a), Dy(b)) THEN Dy(a) ELSE Dy(b)
      hi == IF DyLe(Dy(a), Dy(b)) THEN Dy(b) ELSE Dy(a)
      d == DyI(Den(fam, n))
  IN \A i \in 1..m : DyLe(DyMul(d, lo), Pts[i][1]) /\ DyLe(Pts[i][1], DyMul(d, hi))
                     /\ (i < m /\ a # b => DyCmp(Pts[i][1], Pts[i + 1][1]) < 0)
\* adjoining intervals: the union rule of 2n pieces is the sum of the two of n pieces, point by point
Adjoin == (IsNC(fam) /\ a # b) =>
  LET mid == DyShl(DyAdd(Dy(a), Dy(b)), -1)
      lft == Expected(fam, n, Items, Dy(a), mid)
      all == Expected(fam, 2 * n, Items, Dy(a), Dy(b))
      up == DyCmp(Dy(a), Dy(b)) < 0
      off == IF up THEN 0 ELSE Evals(fam, 2 * n) - m
  IN \A i \in 1..m : DyCmp(DyMul(DyI(2), lft[i][1]), all[i + off][1]) = 0

(* ----------------------------- judgements ------------------------------- *)
RDy(d, den) == IF d[2] >= 0 THEN RoundRat(FALSE, BShl(d[1], d[2]), den) ELSE RoundRat(FALSE, d[1], BShl(den, -d[2]))
IdealEv == [i \in 1..m |-> RDy(Pts[i][1], BInt(Den(fam, n))) \o Rnd(100 + i)]
IdealVal(ev) == RDy(DyMul(L, FoldLeft(LAMBDA s, i : DyAdd(s, DyMul(Pts[i][2], Dy(EY(ev[i])))), DyZero, [i \in 1..m |-> i])), BInt(ResDen(fam, n)))
Judge(ev, v) == IntegBad(fam, n, Items, a, b, ev, v)
Accepts == LET ev == TLCEval(IdealEv) IN Judge(ev, IdealVal(ev)) = {}
\* any way of computing it in double precision
ScaleB == CASE Unbounded(fam) -> OneB
            [] fam = "Simpson" -> Div64(Sub64(b, a), D(<< 6 * n, 1 >>))
            [] fam = "Trapezoid" -> Div64(Sub64(b, a), D(<< 2 * n, 1 >>))
            [] fam = "Midpoint" -> Div64(Sub64(b, a), D(<< n, 1 >>))
            [] OTHER -> Mul64(Sub64(b, a), D(<< 1, 2 >>))
CoefB(i) == RDy(Pts[i][2], BOne)
SumIn(order, ev) == FoldLeft(LAMBDA s, i : Add64(s, Mul64(CoefB(i), EY(ev[i]))), ZeroB, order)
Perms(k) == { p \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => p[i] # p[j] }
HalvesSum(k, ev) == Add64(SumIn([i \in 1..k |-> i], ev), SumIn([i \in 1..(m - k) |-> k + i], ev))
AnyOrder ==
  LET ev == TLCEval(IdealEv)
  IN /\ m <= MaxPerm => \A p \in Perms(m) : Judge(ev, Mul64(ScaleB, SumIn(p, ev))) = {}
     /\ \A k \in 0..m : Judge(ev, Mul64(ScaleB, HalvesSum(k, ev))) = {}
     \* every term scaled by itself
     /\ Judge(ev, FoldLeft(LAMBDA s, i : Add64(s, Mul64(ScaleB, Mul64(CoefB(i), EY(ev[i])))), ZeroB, [i \in 1..m |-> i])) = {}
Nudge(x) == Add64(x, D(<< 1, 1000000 >>))
Rejects ==
  LET ev == TLCEval(IdealEv) v == TLCEval(IdealVal(ev))
  IN a # b \/ Unbounded(fam) =>
     /\ Judge(ev, Nudge(v)) # {}
     /\ Judge(ev, NegB(v)) # {} \/ IsZero(v)
     /\ Judge(ev, QNaN) # {} /\ Judge(ev, InfB(FALSE)) # {}
     /\ Judge(Tail(ev), v) # {} /\ Judge(ev \o << ev[m] >>, v) # {}
     /\ \A i \in 1..m :
          /\ Judge([ev EXCEPT ![i] = Nudge(EX(@)) \o EY(@)], v) # {}
          /\ Judge([ev EXCEPT ![i] = QNaN \o EY(@)], v) # {}
          /\ Judge([ev EXCEPT ![i] = EX(@) \o QNaN], v) # {}
          /\ Judge([ev EXCEPT ![i] = EX(@) \o QNaN], QNaN) = {}
          /\ Judge([ev EXCEPT ![i] = EX(@) \o InfB(FALSE)], v) # {}
          /\ Judge([ev EXCEPT ![i] = EX(@) \o InfB(FALSE)], InfB(FALSE)) = {}
          /\ Judge([ev EXCEPT ![i] = EX(@) \o QNaN], InfB(FALSE)) # {}
          /\ (i < m => Judge([ev EXCEPT ![i] = ev[i + 1]], v) # {})
          /\ (i < m /\ DyCmp(Pts[i][2], Pts[i + 1][2]) # 0 =>
                Judge([ev EXCEPT ![i] = EX(@) \o EY(ev[i + 1]), ![i + 1] = EX(@) \o EY(ev[i])], v) # {})
\* an empty interval: the integral is zero
Empty == (a = b /\ ~Unbounded(fam)) =>
  LET ev == TLCEval(IdealEv) IN Judge(ev, ZeroB) = {} /\ Judge(ev, OneB) # {} /\ IsZero(IdealVal(ev))
\* neighbouring doubles as bounds: the points nearly coincide, their values may come in any order (unmapped rules
\* have no such case), while a constant is still judged to the last bits
Ulp1(x) == << x[1], x[2] + 1 >>
Clustered == ~Unbounded(fam) =>
  LET b2 == Ulp1(a)
      pts == Expected(fam, n, Items, Dy(a), Dy(b2))
      J(ev, v) == IntegBad(fam, n, Items, a, b2, ev, v)
      len == Length(fam, Dy(a), Dy(b2))
      at(i) == IF i % 2 = 0 THEN a ELSE b2
      val(y) == RDy(DyMul(len, FoldLeft(LAMBDA s, i : DyAdd(s, DyMul(pts[i][2], Dy(y[i]))), DyZero, [i \in 1..m |-> i])), BInt(ResDen(fam, n)))
      y0 == TLCEval([i \in 1..m |-> Rnd(100 + i)])
      ev0 == [i \in 1..m |-> at(i) \o y0[i]]
      one == [i \in 1..m |-> at(i) \o OneB]
  IN a[2] < 2000000000 /\ ~IsZero(a) =>
     /\ J(ev0, val(y0)) = {} /\ J(ev0, val([i \in 1..m |-> y0[m + 1 - i]])) = {}
     /\ J(ev0, val([i \in 1..m |-> D(<< 9, 1 >>)])) # {}
     /\ J(one, val([i \in 1..m |-> OneB])) = {} /\ J(one, val([i \in 1..m |-> D(<< 1000001, 1000000 >>)])) # {}
NCs == {"Midpoint", "Simpson", "Trapezoid"}
GFs == {"Legendre", "Laguerre"}
=============================================================================
