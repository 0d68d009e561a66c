-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic: the integer v stands for the real v/2^F.   *)
(* Every operator is within a few units of 2^-F of the real function       *)
(* (relative to the size of its arguments), which is ~100 bits finer than  *)
(* the double precision the implementation works in.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigInt, TLC

F == 192
FOne == BShl(BInt(1), F)
FHalf == BShl(BInt(1), F - 1)
FInt(i) == BShl(BInt(i), F)
FRat(p, q) == BDiv(BShl(BInt(p), F), BInt(q))
FMul(a, b) == BMulShr(a, b, F)
FDiv(a, b) == BDiv(BShl(a, F), b)
FSqrt(a) == BSqrt(BShl(a, F))
FAbs(a) == BAbs(a)
FSq(a) == BMulShr(a, a, F)
\* 2^-k as a fixed-point number
FPow2(k) == BScale(BInt(1), F + k)

UpTo(n) == [i \in 1..n |-> i]

(* atanh(t) for |t| <= 1/3 : sum t^(2k+1)/(2k+1) *)
AtanhSer(t) ==
  LET t2 == FSq(t)
      r == FoldLeft(LAMBDA s, k : LET pw == FMul(s[2], t2)
                                  IN << BAdd(s[1], BDiv(pw, BInt(2*k+1))), pw >>,
                    <<t, t>>, UpTo(62))
  IN r[1]
(* arctan(1/m) for integer m >= 5 *)
AtanInv(m) ==
  LET t == FRat(1, m)
      r == FoldLeft(LAMBDA s, k : LET pw == BDiv(s[2], BInt(-(m*m)))
                                  IN << BAdd(s[1], BDiv(pw, BInt(2*k+1))), pw >>,
                    <<t, t>>, UpTo(44))
  IN r[1]
Pi == BSub(BMul(BInt(16), AtanInv(5)), BMul(BInt(4), AtanInv(239)))   \* Machin
HalfPi == BShr(Pi, 1)
Ln2 == BMul(BInt(2), AtanhSer(FRat(1, 3)))

(* natural logarithm of a positive fixed-point number *)
Ln(x) ==
  LET e == BBitLen(x) - 1 - F                    \* x = m 2^e, m in [1,2)
      m == BScale(x, -e)
      t == FDiv(BSub(m, FOne), BAdd(m, FOne))
  IN BAdd(BMul(BInt(2), AtanhSer(t)), BMul(BInt(e), Ln2))

(* exp(y) = m 2^k with m in [1/2, 3) as <<m, k>> : valid for every y, no underflow *)
ExpMK(y) ==
  LET k == BToInt(BDiv(y, Ln2))
      r == BSub(y, BMul(BInt(k), Ln2))           \* [0, ln2)
      s == BShr(r, 8)
      ser == FoldLeft(LAMBDA st, i : LET pw == BDiv(FMul(st[2], s), BInt(i))
                                     IN << BAdd(st[1], pw), pw >>,
                      <<FOne, FOne>>, UpTo(22))
      e == FoldLeft(LAMBDA v, i : FSq(v), ser[1], UpTo(8))
  IN <<e, k>>
Exp(y) == LET mk == ExpMK(y) IN BScale(mk[1], mk[2])

(* cos and sin on [0, pi] *)
CosSer(x) == \* |x| <= pi/2
  LET x2 == BNeg(FSq(x))
      r == FoldLeft(LAMBDA s, k : LET pw == BDiv(FMul(s[2], x2), BInt((2*k-1) * (2*k)))
                                  IN << BAdd(s[1], pw), pw >>,
                    <<FOne, FOne>>, UpTo(28))
  IN r[1]
Cos(x) == IF BLe(x, HalfPi) THEN CosSer(x) ELSE BNeg(CosSer(BSub(Pi, x)))
Sin(x) == CosSer(BSub(HalfPi, x))

(* ln Gamma(x), x > 0 : Stirling's series after shifting the argument above 64 *)
Bern == << <<1, 6>>, <<-1, 30>>, <<1, 42>>, <<-1, 30>>, <<5, 66>>, <<-691, 2730>>, <<7, 6>>,
           <<-3617, 510>>, <<43867, 798>>, <<-174611, 330>>, <<854513, 138>>, <<-236364091, 2730>>,
           <<8553103, 6>> >>
HalfLn2Pi == BShr(Ln(BMul(BInt(2), Pi)), 1)
Stirling(z) ==
  LET z2 == FSq(z)
      r == FoldLeft(LAMBDA s, k :
              << BAdd(s[1], FDiv(BDiv(BMul(BInt(Bern[k][1]), FOne), BInt(Bern[k][2] * (2*k) * (2*k-1))), s[2])),
                 FMul(s[2], z2) >>,
              <<BInt(0), z>>, UpTo(13))
  IN BAdd(BAdd(BSub(FMul(BSub(z, FHalf), Ln(z)), z), HalfLn2Pi), r[1])
LnGamma(x) ==
  LET xi == BShr(x, F)
      n == IF BCmp(xi, BInt(64)) >= 0 THEN 0 ELSE 64 - BToInt(xi)
      r == FoldLeft(LAMBDA s, k : << BAdd(s[1], FOne), FMul(s[2], s[1]) >>, <<x, FOne>>, UpTo(n))
  IN BSub(Stirling(r[1]), Ln(r[2]))
=============================================================================
