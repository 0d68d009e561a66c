------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* What a correct Gauss rule is (for module Session's New), and how far a  *)
(* rule in double precision may be from it.                                *)
(*                                                                         *)
(* A rule is given by its family, degree n, parameters (bit patterns) and  *)
(* its node-weight pairs, each <<xhi, xlo, whi, wlo>>.  The operators      *)
(* return sets of failures <<kind, index>>; the empty set means correct.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, BigInt, Fix, F64, OrthoPoly, TLC

GaussFams == {"Legendre", "Jacobi", "Laguerre", "Hermite", "Cheb1", "Cheb2"}
NCFams == {"Midpoint", "Simpson", "Trapezoid"}

X(p) == << p[1], p[2] >>
W(p) == << p[3], p[4] >>
\* tolerances are counted in units of 2^-53
U == FPow2(-53)

(* Largest magnitude of a node, at least 1: the spectral radius up to a factor *)
Radius(fam, n, fa) ==
  CASE fam = "Laguerre" -> BAdd(BAbs(fa), FInt(4*n + 2))
    [] fam = "Hermite" -> FSqrt(FInt(2*n + 1))
    [] OTHER -> FOne

(* Allowed error of a node, in U * Radius.  Golub-Welsch: eigenvalues are   *)
(* accurate relative to the spectral radius, with a slowly growing factor. *)
TolX(fam, n) ==
  CASE fam = "Legendre" -> 16
    [] fam \in {"Cheb1", "Cheb2"} -> 16
    [] OTHER -> 40 + 3 * n
(* Allowed relative error of the total weight, in U: pow and the Lanczos   *)
(* form of gamma lose accuracy with the size of the parameters.            *)
TolMass(fam, fa, fb) ==
  LET sg == BAdd(BAbs(fa), BAbs(fb))
      g  == BToInt(BShr(BMin(sg, FInt(1000000)), F)) + 1
  IN CASE fam \in {"Jacobi", "Laguerre"} -> 256 + 256 * (IF g < 12 THEN g ELSE 12) + 32 * g
       [] OTHER -> 64
(* Allowed error of the square root of a relative weight, in U: eigenvector *)
(* components are accurate absolutely, with a factor growing with the       *)
(* inverse relative gap of the eigenvalues (like n^2).                      *)
TolV(fam, n, mass, rootw) ==
  CASE fam = "Legendre" -> BInt(16) \* of the weight itself, relative
    [] fam \in {"Cheb1", "Cheb2"} -> BInt(16)
    [] OTHER -> BAdd(BInt(32 + 6 * (IF n < 4000 THEN n * n ELSE 16000000)), BAdd(BShr(BMul(BInt(mass), rootw), F), BInt(1)))

(* ------------------------------ accuracy -------------------------------- *)
(* an error as thousandths of its tolerance *)
Err(num, tol) == LET q == BDiv(BMul(BAbs(num), BInt(1000)), tol)
                 IN IF BBitLen(q) > 30 THEN 1073741823 ELSE BToInt(q)
\* closed forms, k-th node in ascending order
Cheb1Node(n, k) == BNeg(Cos(BDiv(BMul(BInt(2*k - 1), Pi), BInt(2*n))))
Cheb2Node(n, k) == BNeg(Cos(BDiv(BMul(BInt(k), Pi), BInt(n + 1))))
Cheb1Weight(n) == BDiv(Pi, BInt(n))
Cheb2Weight(n, k) == BDiv(FMul(Pi, FSq(Sin(BDiv(BMul(BInt(k), Pi), BInt(n + 1))))), BInt(n + 1))

\* <<node error, weight error>> of the i-th pair, in thousandths of the tolerance
\* beyond this degree the recurrence is too long: the asymptotic forms are exact to double precision
\* for all but the outermost nodes (weights: the outermost 4000)
LegHuge == 1048576
ErrLegendre(n, i, p) ==
  LET k == n + 1 - i
      edge == IF k < i THEN k ELSE i
      r == TLCEval(IF n < LegHuge THEN LegInfo(n, Fx(X(p)))
                   ELSE LET q == LegAsym(n, k) IN << IF edge < 64 THEN BInt(0) ELSE BSub(Fx(X(p)), q[1]),
                                                     IF edge < 4000 THEN BMax(FPow2(-100), Fx(W(p))) ELSE q[2] >>)
  IN << Err(r[1], BMul(U, BInt(TolX("Legendre", n)))),
        IF BSign(r[2]) <= 0 THEN 1073741823
        ELSE Err(BSub(Fx(W(p)), r[2]), FMul(BMul(BInt(16), U), r[2])) >>
ErrCheb1(n, i, p) ==
  << Err(BSub(Fx(X(p)), Cheb1Node(n, i)), BMul(U, BInt(16))),
     Err(BSub(Fx(W(p)), Cheb1Weight(n)), FMul(BMul(BInt(16), U), Cheb1Weight(n))) >>
\* the weight is judged through its square root, relative to the largest weight:
\* sin of a rounded angle is accurate absolutely
ErrCheb2(n, i, p) ==
  LET w == Cheb2Weight(n, i)
      mx == FSqrt(BDiv(Pi, BInt(n + 1)))
  IN << Err(BSub(Fx(X(p)), Cheb2Node(n, i)), BMul(U, BInt(16))),
        IF BSign(Fx(W(p))) < 0 THEN 1073741823
        ELSE Err(BSub(FSqrt(Fx(W(p))), FSqrt(w)), FMul(BMul(BInt(16), U), mx)) >>
\* the relative weight as fixed point, without losing tiny or huge total weights: mu0 = m 2^k
RelW(p, mk) == BDiv(BScale(Man(W(p)), Exp2(W(p)) - mk[2] + 2 * F), mk[1])
ErrGW(fam, n, rows, rad, mk, mass, p) ==
  LET r == NodeInfo(rows, Fx(X(p)))
      rel == RelW(p, mk)
      rt == FSqrt(FDiv(FOne, r[2]))
  IN << Err(r[1], FMul(BMul(U, BInt(TolX(fam, n))), rad)),
        IF BSign(r[2]) <= 0 \/ BSign(rel) < 0 THEN 1073741823
        ELSE Err(BSub(FSqrt(rel), rt), BMul(U, TolV(fam, n, mass, rt))) >>

FinitePair(p) == IsFin(X(p)) /\ IsFin(W(p))

PA(fam, al) == IF fam \in {"Jacobi", "Laguerre"} THEN Fx(al) ELSE BInt(0)
PB(fam, be) == IF fam = "Jacobi" THEN Fx(be) ELSE BInt(0)
MassMK(fam, fa, fb) == ExpMK(LnMu0(fam, fa, fb))
(* is the total weight comfortably inside the range of a double? *)
Representable(fam, fa, fb) ==
  /\ BLe(BAbs(fa), FInt(100000)) /\ BLe(BAbs(fb), FInt(100000))
  /\ LET l == LnMu0(fam, fa, fb) IN BLe(l, FInt(709)) /\ BLe(FInt(-700), l)

(* measured errors of the listed positions: sequence of <<i, node error, weight error>> *)
Measure(fam, n, al, be, ips) == \* ips: sequence of <<i, xhi, xlo, whi, wlo>>
  LET fa == PA(fam, al)
      fb == PB(fam, be)
      gw == fam \in {"Jacobi", "Laguerre", "Hermite"}
      rows == TLCEval(IF gw THEN Rows(fam, fa, fb, n) ELSE <<>>)
      mk == TLCEval(IF gw THEN MassMK(fam, fa, fb) ELSE <<>>)
      rad == TLCEval(Radius(fam, n, fa))
      mass == TLCEval(TolMass(fam, fa, fb))
  IN FoldLeft(LAMBDA acc, ip :
        LET p == << ip[2], ip[3], ip[4], ip[5] >>
            e == IF ~FinitePair(p) THEN << 1073741823, 1073741823 >>
                 ELSE CASE fam = "Legendre" -> ErrLegendre(n, ip[1], p)
                        [] fam = "Cheb1" -> ErrCheb1(n, ip[1], p)
                        [] fam = "Cheb2" -> ErrCheb2(n, ip[1], p)
                        [] OTHER -> ErrGW(fam, n, rows, rad, mk, mass, p)
        IN Append(acc, << ip[1], e[1], e[2] >>), <<>>, ips)

(* The middle node of an odd-degree Jacobi rule with alpha # beta (known finding: it is set to 0) *)
IsMid(fam, n, al, be, i) == fam = "Jacobi" /\ n % 2 = 1 /\ n >= 3 /\ i = (n + 1) \div 2 /\ ~EqF(al, be)
Mid0(fam, n, al, be, i, p) == IsMid(fam, n, al, be, i) /\ IsZero(X(p))

AccBad(fam, n, al, be, ips) ==
  LET ms == Measure(fam, n, al, be, ips)
  IN UNION { LET m == ms[q]
                 mid == Mid0(fam, n, al, be, m[1], << ips[q][2], ips[q][3], ips[q][4], ips[q][5] >>)
             IN (IF m[2] > 1000 THEN { << IF mid THEN "mid0" ELSE "node", m[1] >> } ELSE {})
                \cup (IF m[3] > 1000 /\ ~mid THEN { << "weight", m[1] >> } ELSE {})
             : q \in 1..Len(ms) }

(* Two rules of one degree computed in different ways (build configurations) *)
(* differ by at most the accuracy allowed to each.                           *)
NearBad(fam, n, al, be, ps, qs) ==
  LET fa == PA(fam, al)
      fb == PB(fam, be)
      gw == fam \in {"Jacobi", "Laguerre", "Hermite"}
      mk == TLCEval(MassMK(fam, fa, fb))
      tx == TLCEval(FMul(BMul(U, BInt(2 * TolX(fam, n))), Radius(fam, n, fa)))
      mass == TLCEval(TolMass(fam, fa, fb))
  IN { << "cfgnode", i >> : i \in { k \in 1..n : FinitePair(ps[k]) /\ FinitePair(qs[k]) /\
            BLt(tx, BAbs(BSub(Fx(X(ps[k])), Fx(X(qs[k]))))) } }
     \cup { << "cfgweight", i >> : i \in { k \in 1..n : FinitePair(ps[k]) /\ FinitePair(qs[k]) /\
            LET a == FSqrt(BMax(BZero, RelW(ps[k], mk)))
                b == FSqrt(BMax(BZero, RelW(qs[k], mk)))
            IN BLt(BMul(BMul(BInt(2), U), TolV(fam, n, mass, a)), BAbs(BSub(a, b))) } }
     \cup { << "cfgnonfinite", i >> : i \in { k \in 1..n : FinitePair(ps[k]) # FinitePair(qs[k]) } }

(* ------------------------------ structure ------------------------------- *)
(* For sampled nodes of large Legendre rules: the i-th node lies where the   *)
(* i-th root does (asymptotically at cos((k-1/4) pi/(n+1/2)), k from the     *)
(* right), to a quarter of the local spacing.                                *)
LegIndexOk(n, i, p) ==
  LET k == n + 1 - i
      ang(num) == BDiv(BMul(BInt(num), Pi), BInt(4*n + 2))   \* (num/4) pi / (n+1/2) * ... = num pi/(4n+2)
      x == Fx(X(p))
  IN /\ BLt(x, Cos(ang(4*k - 2)))
     /\ BLt(IF 4*k <= 4*n + 2 THEN Cos(ang(4*k)) ELSE BNeg(FInt(2)), x)

SumW(ps) == FoldLeft(LAMBDA s, p : DyAdd(s, Dy(W(p))), DyZero, ps)
(* all nodes recorded: count, finiteness, order, domain, signs, total mass, symmetry *)
StructBad(fam, n, al, be, ps) ==
  LET fa == PA(fam, al)
      fb == PB(fam, be)
      m == Len(ps)
      slack == TLCEval(FMul(BMul(U, BInt(TolX(fam, n))), Radius(fam, n, fa)))
      nonfin == { i \in 1..m : ~FinitePair(ps[i]) }
      mids == { i \in 1..m : Mid0(fam, n, al, be, i, ps[i]) }
      xs == IF nonfin = {} THEN [i \in 1..m |-> Fx(X(ps[i]))] ELSE <<>>
      bounded == fam \in {"Legendre", "Jacobi", "Cheb1", "Cheb2"}
      even == fam \in {"Legendre", "Hermite", "Cheb1", "Cheb2"} \/ (fam = "Jacobi" /\ EqF(al, be))
  IN (IF m # n THEN { << "count", m >> } ELSE {})
     \cup { << "finite", i >> : i \in nonfin }
     \cup (IF nonfin # {} THEN {} ELSE
       { << IF {i, i + 1} \cap mids # {} THEN "mid0order" ELSE "order", i >>
            : i \in { k \in 1..(m - 1) : ~BLt(xs[k], xs[k + 1]) } }
       \cup { << "order", i >> : i \in { k \in mids : k > 1 /\ k < m /\ ~BLt(xs[k - 1], xs[k + 1]) } }
       \cup { << "negweight", i >> : i \in { k \in 1..m : Neg(W(ps[k])) /\ ~IsZero(W(ps[k])) } }
       \cup (IF bounded THEN { << "domain", i >> : i \in { k \in 1..m : BLt(BAdd(FOne, slack), BAbs(xs[k])) } }
             ELSE IF fam = "Laguerre" THEN { << "domain", i >> : i \in { k \in 1..m : BLt(xs[k], BNeg(slack)) } }
             ELSE {})
       \cup (IF even THEN { << "symmetry", i >> : i \in { k \in 1..(m \div 2) :
                 BLt(BMul(BInt(2), slack), BAbs(BAdd(xs[k], xs[m + 1 - k]))) } } ELSE {})
       \cup (LET mk == MassMK(fam, fa, fb)
                 s == SumW(ps)
                 rel == BDiv(BScale(s[1], s[2] - mk[2] + 2 * F), mk[1])
             IN IF BLt(BMul(U, BInt(2 * TolMass(fam, fa, fb) + 16 + 8 * (IF n < 1000000 THEN n ELSE 1000000))), BAbs(BSub(rel, FOne)))
                THEN { << "mass", 0 >> } ELSE {}))
=============================================================================
