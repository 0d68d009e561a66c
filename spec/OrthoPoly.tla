----------------------------- MODULE OrthoPoly -----------------------------
(***************************************************************************)
(* Orthogonal polynomials and Gauss quadrature rules, by definition:       *)
(* the orthonormal polynomials satisfy                                     *)
(*    c[k+1] p[k+1](x) = (x - a[k]) p[k](x) - c[k] p[k-1](x)               *)
(* the nodes are the roots of p[n], and the weight of a root r is          *)
(*    mu0 / (p[0](r)^2 + ... + p[n-1](r)^2)    (p[0] = 1).                 *)
(* Everything is fixed-point real arithmetic (module Fix).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigInt, Fix, TLC

\* a quotient that only arises when the argument is far from any root may be anything large
SafeDiv(a, b) == IF BSign(b) = 0 THEN FInt(1000000) ELSE FDiv(a, b)

\* ---- recurrence coefficients; al, be are fixed-point parameters ----
\* a[k], k >= 0
CoefA(fam, al, be, k) ==
  CASE fam = "Laguerre" -> BAdd(al, FInt(2*k + 1))
    [] fam = "Jacobi" ->
         LET s == BAdd(BAdd(al, be), FInt(2*k))
         IN IF k = 0 THEN FDiv(BSub(be, al), BAdd(s, FInt(2)))
            ELSE FDiv(BSub(FSq(be), FSq(al)), FMul(s, BAdd(s, FInt(2))))
    [] OTHER -> BInt(0)
\* b[k] = c[k]^2, k >= 1
CoefB(fam, al, be, k) ==
  CASE fam = "Legendre" -> BDiv(BMul(BInt(k), FInt(k)), BSub(BMul(BInt(2*k), BInt(2*k)), BInt(1)))
    [] fam = "Hermite" -> FRat(k, 2)
    [] fam = "Laguerre" -> BMul(BInt(k), BAdd(al, FInt(k)))
    [] fam = "Cheb1" -> IF k = 1 THEN FRat(1, 2) ELSE FRat(1, 4)
    [] fam = "Cheb2" -> FRat(1, 4)
    [] fam = "Jacobi" ->
         LET ab == BAdd(al, be)
             s  == BAdd(ab, FInt(2*k))
             num1 == FMul(BAdd(al, FInt(k)), BAdd(be, FInt(k)))
         IN IF k = 1
            THEN FDiv(BMul(BInt(4), num1), FMul(FSq(s), BAdd(s, FOne)))
            ELSE FDiv(BMul(BInt(4*k), FMul(num1, BAdd(ab, FInt(k)))),
                      FMul(FSq(s), BSub(FSq(s), FOne)))
\* logarithm of the total mass of the weight function
LnMu0(fam, al, be) ==
  CASE fam = "Legendre" -> Ln2
    [] fam = "Hermite" -> BShr(Ln(Pi), 1)
    [] fam = "Laguerre" -> LnGamma(BAdd(al, FOne))
    [] fam = "Cheb1" -> Ln(Pi)
    [] fam = "Cheb2" -> Ln(HalfPi)
    [] fam = "Jacobi" ->
         BAdd(FMul(BAdd(BAdd(al, be), FOne), Ln2),
             BSub(BAdd(LnGamma(BAdd(al, FOne)), LnGamma(BAdd(be, FOne))),
                  LnGamma(BAdd(BAdd(al, be), FInt(2)))))

\* row k (1..n) of the recurrence:  <<a[k-1], c[k-1], 1/c[k]>>; the last polynomial is left unnormalised
Rows(fam, al, be, n) ==
  FoldLeft(LAMBDA st, k :
     LET c  == IF k = n THEN FOne ELSE FSqrt(CoefB(fam, al, be, k))
         ic == IF k = n THEN FOne ELSE FDiv(FOne, c)
     IN << Append(st[1], << CoefA(fam, al, be, k-1), st[2], ic >>), c >>,
     << <<>>, BInt(0) >>, UpTo(n))[1]

(* One pass over the recurrence at x: <<p_n, p_n', S, T>> with S = sum p_k^2 *)
(* and T = sum p_k p_k'  (k < n).                                            *)
EvalAt(rows, x) ==
  LET r == FoldLeft(LAMBDA st, c :
             LET xa == BSub(x, c[1])
                 p  == FMul(BSub(FMul(xa, st[1]), FMul(c[2], st[2])), c[3])
                 d  == FMul(BSub(BAdd(st[1], FMul(xa, st[3])), FMul(c[2], st[4])), c[3])
             IN << p, st[1], d, st[3], BAdd(st[5], FSq(st[1])), BAdd(st[6], FMul(st[1], st[3])) >>,
             << FOne, BInt(0), BInt(0), BInt(0), BInt(0), BInt(0) >>, rows)
  IN << r[1], r[3], r[5], r[6] >>
\* p_n / p_n' alone
Slope(rows, x) ==
  LET r == FoldLeft(LAMBDA st, c :
             LET xa == BSub(x, c[1])
                 p  == FMul(BSub(FMul(xa, st[1]), FMul(c[2], st[2])), c[3])
                 d  == FMul(BSub(BAdd(st[1], FMul(xa, st[3])), FMul(c[2], st[4])), c[3])
             IN << p, st[1], d, st[3] >>,
             << FOne, BInt(0), BInt(0), BInt(0) >>, rows)
  IN SafeDiv(r[1], r[3])
\* distance of x from the root it approximates, and the Christoffel sum at that root:
\* one Newton step in full precision, then a first-order correction
NodeInfo(rows, x) ==
  LET d1 == Slope(rows, x)
      e  == EvalAt(rows, BSub(x, d1))
      d2 == SafeDiv(e[1], e[2])
  IN << BAdd(d1, d2), BSub(e[3], BMul(BInt(2), FMul(d2, e[4]))) >>

(* ---- Legendre, closed forms: one two-term recurrence, used for large n ----- *)
(* P_n, P_{n-1} at x;  P' = n (P_{n-1} - x P_n)/(1-x^2);  weight 2/((1-x^2) P'^2) *)
LegP(n, x) ==
  FoldLeft(LAMBDA s, k : << BDiv(BSub(BMul(BInt(2*k-1), FMul(x, s[1])), BMul(BInt(k-1), s[2])), BInt(k)), s[1] >>,
           << FOne, BInt(0) >>, UpTo(n))
RECURSIVE LegNear(_, _, _)
LegNear(n, x, again) ==
  LET pp == LegP(n, x)
      q  == BSub(FOne, FSq(x))
      d  == SafeDiv(BMul(BInt(n), BSub(pp[2], FMul(x, pp[1]))), q)
      dl == SafeDiv(pp[1], d)
      \* P'' from Legendre's equation; correct P' and q to the root x - dl
      d2 == SafeDiv(BSub(BMul(BInt(2), FMul(x, d)), BMul(BMul(BInt(n), BInt(n+1)), pp[1])), q)
      dr == BSub(d, FMul(dl, d2))
      xr == BSub(x, dl)
      w  == SafeDiv(FInt(2), FMul(BSub(FOne, FSq(xr)), FSq(dr)))
  IN \* close to an end of the interval a first-order correction is not enough: once more at the root
     IF again /\ BLt(BAbs(q), BShl(BAbs(dl), 30))
     THEN LET r == LegNear(n, xr, FALSE) IN << BAdd(dl, r[1]), r[2] >>
     ELSE << dl, w >>
LegInfo(n, x) == LegNear(n, x, TRUE)

(* ---- Legendre, degrees too large for the recurrence: asymptotic forms ---- *)
(* The k-th root from the right is cos(phi + cot(phi)/(2 M^2)) with M = 2n+1 and phi = (4k-1) pi/(2M), to within     *)
(* 2/(M^4 sin^2 phi); its weight is 2 pi/M sin(phi) (1 - 1/(2 M^2)), relatively to within 16/(M sin phi)^4.          *)
LegAngle(n, k) == BDiv(BMul(BInt(4*k - 1), Pi), BMul(BInt(2), BAdd(BMul(BInt(2), BInt(n)), BInt(1))))
LegAsym(n, k) ==
  LET phi == LegAngle(n, k)
      M == BAdd(BMul(BInt(2), BInt(n)), BInt(1))
      s == Sin(phi)
      hot == BDiv(FDiv(Cos(phi), s), BMul(BInt(2), BMul(M, M)))
  IN << Cos(BAdd(phi, hot)), BMul(BInt(2), BDiv(FMul(Pi, BSub(s, BDiv(s, BMul(BInt(2), BMul(M, M))))), M)) >>
=============================================================================
