------------------------------- MODULE MCRules -------------------------------
(***************************************************************************)
(* The oracle for Gauss rules checked against what defines Gauss rules.    *)
(* A behaviour fixes a weight function and lets the degree grow: the roots *)
(* of degree n+1 are located between the roots of degree n (bisection,     *)
(* then Newton), independently of how the implementation or the oracle     *)
(* finds nodes.  In every state the rule integrates every polynomial of    *)
(* degree up to 2n-1 exactly (moments in closed form), and the judgement   *)
(* made by Rules about recorded rules is right: the correctly rounded rule *)
(* is accepted, and every single-entry damage to it is reported.           *)
(***************************************************************************)
EXTENDS Rules
CONSTANTS Cases, MaxN
VARIABLES fam, al, be,   \* the weight function; parameters as <<numerator, denominator>>
          n, xs          \* the degree and its roots (fixed point, ascending)
rvars == << fam, al, be, n, xs >>

Fa == IF fam \in {"Jacobi", "Laguerre"} THEN FRat(al[1], al[2]) ELSE BInt(0)
Fb == IF fam = "Jacobi" THEN FRat(be[1], be[2]) ELSE BInt(0)
AB == OfFx(Fa)
BB == OfFx(Fb)
Small(e) == FPow2(-e)

\* a point left (right) of every root
Lo == CASE fam = "Laguerre" -> BInt(0) [] fam = "Hermite" -> BNeg(FInt(2 * n + 6)) [] OTHER -> BNeg(FOne)
Hi == CASE fam = "Laguerre" -> BAdd(FInt(4 * n + 12), BMul(BInt(2), BAbs(Fa))) [] fam = "Hermite" -> FInt(2 * n + 6) [] OTHER -> FOne
Bisect(rows, l, r) == \* p changes sign in (l, r)
  LET sl == BSign(EvalAt(rows, l)[1])
      q == FoldLeft(LAMBDA s, i : LET m == BShr(BAdd(s[1], s[2]), 1)
                                  IN IF BSign(EvalAt(rows, m)[1]) = sl THEN << m, s[2] >> ELSE << s[1], m >>, << l, r >>, UpTo(48))
  IN FoldLeft(LAMBDA x, i : BSub(x, Slope(rows, x)), BShr(BAdd(q[1], q[2]), 1), UpTo(4))
RootsOf(m) == \* from the roots xs of degree m - 1
  LET rows == TLCEval(Rows(fam, Fa, Fb, m))
      ends == << Lo >> \o xs \o << Hi >>
  IN [i \in 1..m |-> Bisect(rows, ends[i], ends[i + 1])]

Init == /\ \E c \in Cases : fam = c[1] /\ al = c[2] /\ be = c[3]
        /\ n = 0 /\ xs = << >>
Next == /\ n < MaxN /\ n' = n + 1 /\ xs' = TLCEval(RootsOf(n + 1)) /\ UNCHANGED << fam, al, be >>
Spec == Init /\ [][Next]_rvars

(* ------------------------- the rule of the state ------------------------ *)
MyRows == Rows(fam, Fa, Fb, n)
\* relative weights (of total 1), by Christoffel's formula
Ws == LET rows == TLCEval(MyRows) IN [i \in 1..n |-> FDiv(FOne, EvalAt(rows, xs[i])[3])]
\* relative moments: of (1+x)^k for the bounded families, of x^k for the others
JP == CASE fam = "Legendre" -> << BInt(0), BInt(0) >> [] fam = "Cheb1" -> << BNeg(FHalf), BNeg(FHalf) >>
        [] fam = "Cheb2" -> << FHalf, FHalf >> [] OTHER -> << Fa, Fb >>
Moment(k) ==
  CASE fam = "Laguerre" -> FoldLeft(LAMBDA m, i : FMul(m, BAdd(Fa, FInt(i))), FOne, UpTo(k))
    [] fam = "Hermite" -> IF k % 2 = 1 THEN BInt(0) ELSE FoldLeft(LAMBDA m, i : BDiv(BMul(BInt(2 * i - 1), m), BInt(2)), FOne, UpTo(k \div 2))
    [] OTHER -> FoldLeft(LAMBDA m, i : FDiv(FMul(m, BMul(BInt(2), BAdd(JP[2], FInt(i)))), BAdd(BAdd(JP[1], JP[2]), FInt(i + 1))), FOne, UpTo(k))
Base(x) == IF fam \in {"Laguerre", "Hermite"} THEN x ELSE BAdd(FOne, x)
Pow(x, k) == FoldLeft(LAMBDA m, i : FMul(m, x), FOne, UpTo(k))
Exactness ==
  n > 0 =>
  LET w == TLCEval(Ws)
  IN \A k \in 0..(2 * n - 1) :
       LET s == FoldLeft(LAMBDA a, i : BAdd(a, FMul(w[i], Pow(Base(xs[i]), k))), BInt(0), UpTo(n))
           m == Moment(k)
           size == BAdd(FOne, FoldLeft(LAMBDA a, i : BAdd(a, FMul(w[i], BAbs(Pow(Base(xs[i]), k)))), BInt(0), UpTo(n)))
       IN BLe(BAbs(BSub(s, m)), FMul(Small(110), size))
\* not exact one degree further: the rule is the one with the fewest nodes
Sharp == n > 0 =>
  LET w == TLCEval(Ws)
      s == FoldLeft(LAMBDA a, i : BAdd(a, FMul(w[i], Pow(Base(xs[i]), 2 * n))), BInt(0), UpTo(n))
  IN BLt(s, Moment(2 * n))
Interlaced == \A i \in 1..n : (i < n => BLt(xs[i], xs[i + 1])) /\ BLt(Lo, xs[i]) /\ BLt(xs[i], Hi)
\* two weight functions that are reflections of each other
Symmetric == (fam \in {"Legendre", "Hermite", "Cheb1", "Cheb2"} \/ (fam = "Jacobi" /\ al = be)) =>
  \A i \in 1..n : BLe(BAbs(BAdd(xs[i], xs[n + 1 - i])), Small(130))
Mirrored == fam = "Jacobi" =>
  LET rows == TLCEval(Rows(fam, Fb, Fa, n))
  IN \A i \in 1..n : LET e == EvalAt(rows, BNeg(xs[i])) IN BLe(BAbs(SafeDiv(e[1], e[2])), Small(120))

(* --------------------------- the oracle is right ------------------------ *)
RoundNode(x) == OfFx(x) \o ZeroB
\* what is reported about a point near a root: its distance from it and the weight at the root
Deltas == { BInt(0), Small(60), BNeg(Small(50)), Small(45) }
NodeInfoRight == n > 0 =>
  LET rows == TLCEval(MyRows) w == TLCEval(Ws)
  IN \A i \in 1..n, d \in Deltas :
       LET r == NodeInfo(rows, BAdd(xs[i], d))
       IN /\ BLe(BAbs(BSub(r[1], d)), Small(100))
          /\ BLe(BAbs(BSub(FMul(r[2], w[i]), FOne)), Small(80))
LegendreClosed == (fam = "Legendre" /\ n > 0) =>
  LET w == TLCEval(Ws)
  IN \A i \in 1..n, d \in Deltas :
       LET r == LegInfo(n, BAdd(xs[i], d))
       IN /\ BLe(BAbs(BSub(r[1], d)), Small(75))
          /\ BLe(BAbs(BSub(r[2], BMul(BInt(2), w[i]))), Small(75))
          /\ \A j \in 1..n : LegIndexOk(n, j, RoundNode(xs[i])) <=> i = j
LegendreAsymptotic == (fam = "Legendre" /\ n > 0) =>
  LET w == TLCEval(Ws)
      M4 == BMul(BMul(BInt(2*n + 1), BInt(2*n + 1)), BMul(BInt(2*n + 1), BInt(2*n + 1)))
  IN \A i \in 1..n :
       LET s2 == FSq(Sin(LegAngle(n, n + 1 - i)))
           r == LegAsym(n, n + 1 - i)
       IN /\ BLe(BMul(M4, FMul(s2, BAbs(BSub(r[1], xs[i])))), FInt(2))
          /\ BLe(BMul(M4, FMul(FSq(s2), BAbs(BSub(FDiv(r[2], BMul(BInt(2), w[i])), FOne)))), FInt(16))
ChebClosed ==
  /\ fam = "Cheb1" => \A i \in 1..n : BLe(BAbs(BSub(xs[i], Cheb1Node(n, i))), Small(120)) /\ BLe(BAbs(BSub(FMul(Pi, Ws[i]), Cheb1Weight(n))), Small(120))
  /\ fam = "Cheb2" => \A i \in 1..n : BLe(BAbs(BSub(xs[i], Cheb2Node(n, i))), Small(120)) /\ BLe(BAbs(BSub(FMul(HalfPi, Ws[i]), Cheb2Weight(n, i))), Small(120))
\* the recurrence of the special Jacobi parameters is that of the other families
Special == fam \in {"Legendre", "Cheb1", "Cheb2"} =>
  LET rows == TLCEval(Rows("Jacobi", JP[1], JP[2], n))
  IN \A i \in 1..n : LET e == EvalAt(rows, xs[i]) IN BLe(BAbs(SafeDiv(e[1], e[2])), Small(120)) /\ BLe(BAbs(BSub(FMul(e[3], Ws[i]), FOne)), Small(110))

(* ------------------------- the judgement is right ----------------------- *)
Mu == MassMK(fam, Fa, Fb)
\* the correctly rounded rule, as it would be recorded
Rounded == LET mk == TLCEval(Mu) w == TLCEval(Ws)
           IN [i \in 1..n |-> OfFx(xs[i]) \o RoundDy(FALSE, BMul(w[i], mk[1]), mk[2] - 2 * F)]
Numbered(ps) == [i \in 1..Len(ps) |-> << i >> \o ps[i]]
Judge(ps) == AccBad(fam, n, AB, BB, Numbered(ps)) \cup StructBad(fam, n, AB, BB, ps)
Accepts == n > 0 => Judge(Rounded) = {}
\* one entry changed in any of these ways is reported, whatever the entry
Damage(p, k, rad) ==
  CASE k = 1 -> OfFx(BAdd(Fx(X(p)), FMul(Small(33), rad))) \o W(p)                 \* node off by 1e-10 of the radius
    [] k = 2 -> X(p) \o RoundRat(FALSE, BMul(Fx(W(p)), BInt(1000001)), BShl(BInt(1000000), F))   \* weight off by 1e-6
    [] k = 3 -> X(p) \o NegB(W(p))
    [] k = 4 -> QNaN \o W(p)
    [] k = 5 -> X(p) \o InfB(FALSE)
    [] k = 6 -> OfFx(BAdd(Fx(X(p)), FMul(Small(2), rad))) \o W(p)
Rejects == n > 0 =>
  LET ps == TLCEval(Rounded) rad == TLCEval(Radius(fam, n, Fa))
  IN \A i \in 1..n : \A k \in 1..6 :
       \* a weight that is a tiny part of the total only counts through its square root
       (k # 2 \/ BLt(Small(20), Ws[i])) => Judge([ps EXCEPT ![i] = Damage(@, k, rad)]) # {}
RejectsShape == n > 1 =>
  LET ps == TLCEval(Rounded)
  IN /\ Judge(Tail(ps)) # {} /\ Judge(ps \o << ps[n] >>) # {}
     /\ StructBad(fam, n, AB, BB, [ps EXCEPT ![1] = ps[2], ![2] = ps[1]]) # {}
     /\ StructBad(fam, n, AB, BB, [i \in 1..n |-> ps[n + 1 - i]]) # {}

(* gamma function: the recurrence, known values and the duplication formula *)
GammaLaws ==
  /\ BLe(BAbs(BSub(LnGamma(FHalf), BShr(Ln(Pi), 1))), Small(90))
  /\ BLe(BAbs(LnGamma(FOne)), Small(90)) /\ BLe(BAbs(LnGamma(FInt(2))), Small(90))
  /\ \A p \in {Fa, Fb} : LET x == BAdd(p, FOne) IN
       /\ BLe(BAbs(BSub(LnGamma(BAdd(x, FOne)), BAdd(LnGamma(x), Ln(x)))), Small(80))
       /\ BLe(BAbs(BSub(BAdd(LnGamma(x), LnGamma(BAdd(x, FHalf))),
                        BAdd(BAdd(LnGamma(BMul(BInt(2), x)), BShr(Ln(Pi), 1)), FMul(BSub(FOne, BMul(BInt(2), x)), Ln2)))), Small(80))
  /\ LET mk == ExpMK(LnMu0(fam, Fa, Fb)) IN BLe(BAbs(BSub(Ln(mk[1]), BSub(LnMu0(fam, Fa, Fb), BMul(BInt(mk[2]), Ln2)))), Small(90))
Gamma == n = 0 => GammaLaws

No == << 0, 1 >>
LegCases == { << "Legendre", No, No >> }
ChebCases == { << "Cheb1", No, No >>, << "Cheb2", No, No >> }
HerCases == { << "Hermite", No, No >> }
LagCases == { << "Laguerre", p, No >> : p \in { << 0, 1 >>, << -1, 2 >>, << 7, 3 >>, << -1023, 1024 >>, << 40, 1 >> } }
JacCases == { << "Jacobi", p, q >> : p \in { << 0, 1 >>, << -1, 4 >>, << -3, 4 >>, << 5, 2 >>, << -1023, 1024 >> },
                                     q \in { << 1, 2 >>, << -1, 4 >>, << -3, 4 >>, << 12, 1 >> } }
AllCases == LegCases \cup ChebCases \cup HerCases \cup { << "Laguerre", << 7, 3 >>, No >>, << "Jacobi", << -1, 4 >>, << 3, 2 >> >>, << "Jacobi", << -1, 4 >>, << -3, 4 >> >> }
=============================================================================
