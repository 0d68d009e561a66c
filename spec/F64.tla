-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64.  A double is its bit pattern <<hi, lo>>: two signed  *)
(* 32-bit halves.  The module defines the value of a bit pattern exactly   *)
(* (a dyadic rational m*2^e) and round-to-nearest-even of an arbitrary     *)
(* rational, hence the four basic operations and decimal parsing, bit for  *)
(* bit.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigInt, Fix

P20 == 1048576
Lo31(h) == IF h >= 0 THEN h ELSE (h + 2147483647) + 1
Neg(b) == b[1] < 0
ExpF(b) == Lo31(b[1]) \div P20
B2p32 == BShl(BInt(1), 32)
B2p52 == BShl(BInt(1), 52)
B2p53 == BShl(BInt(1), 53)
LoU(l) == IF l >= 0 THEN BInt(l) ELSE BAdd(BInt(l), B2p32)
Frac(b) == BAdd(BShl(BInt(Lo31(b[1]) % P20), 32), LoU(b[2]))
IsNaN(b) == ExpF(b) = 2047 /\ BSign(Frac(b)) # 0
IsInf(b) == ExpF(b) = 2047 /\ BSign(Frac(b)) = 0
IsFin(b) == ExpF(b) < 2047
IsZero(b) == Lo31(b[1]) = 0 /\ b[2] = 0
\* exact value of a finite double: Man(b) * 2^Exp2(b)
Man(b) == LET m == IF ExpF(b) = 0 THEN Frac(b) ELSE BAdd(Frac(b), B2p52)
          IN IF Neg(b) THEN BNeg(m) ELSE m
Exp2(b) == IF ExpF(b) = 0 THEN -1074 ELSE ExpF(b) - 1075
\* fixed-point value (exact whenever |b| has no bits below 2^-F, else floor)
Fx(b) == BScale(Man(b), Exp2(b) + F)
\* exact value at scale 2^-1074
Ex(b) == BShl(Man(b), Exp2(b) + 1074)
Cmp64(a, b) == BCmp(Ex(a), Ex(b))          \* both finite
ZeroB == <<0, 0>>
OneB == <<1072693248, 0>>                   \* 1.0
NegOneB == <<-1074790400, 0>>               \* -1.0
SameVal(a, b) == \/ a = b
                 \/ IsNaN(a) /\ IsNaN(b)
                 \/ IsZero(a) /\ IsZero(b)
\* the same datum, the sign of zero included
SameBits(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))
\* numeric == of Rust (NaN # NaN, 0 = -0)
EqF(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ (IsZero(a) /\ IsZero(b)))

Sgn32(u) == IF BCmp(u, BShl(BInt(1), 31)) >= 0 THEN BToInt(BSub(u, B2p32)) ELSE BToInt(u)
Half(neg, h) == IF neg THEN (h - 2147483647) - 1 ELSE h
InfB(neg) == <<Half(neg, 2047 * P20), 0>>
ZeroS(neg) == <<Half(neg, 0), 0>>
\* pack q * 2^e, 0 <= q < 2^53, e >= -1074 (q < 2^52 only if e = -1074)
Pack(neg, q, e) ==
  LET lo == BMod(q, B2p32)
      h  == BToInt(BShr(q, 32))
      hi == IF BCmp(q, B2p52) < 0 THEN h ELSE h - P20 + (e + 1075) * P20
  IN IF e > 971 /\ BCmp(q, B2p52) >= 0 THEN InfB(neg) ELSE <<Half(neg, hi), Sgn32(lo)>>
\* round-to-nearest-even of num/den (den > 0); the sign of a zero is given by neg
RoundRat(neg0, num, den) ==
  IF BSign(num) = 0 THEN ZeroS(neg0)
  ELSE
  LET neg == BSign(num) < 0
      a   == BAbs(num)
      e0  == BBitLen(a) - BBitLen(den) - 53
      Q(e) == BDiv(BScale(a, IF e < 0 THEN -e ELSE 0), BScale(den, IF e > 0 THEN e ELSE 0))
      R(e) == BMod(BScale(a, IF e < 0 THEN -e ELSE 0), BScale(den, IF e > 0 THEN e ELSE 0))
      e1  == IF BCmp(Q(e0), B2p53) >= 0 THEN e0 + 1 ELSE e0
      e   == IF e1 < -1074 THEN -1074 ELSE e1
      q   == Q(e)
      d   == BScale(den, IF e > 0 THEN e ELSE 0)
      c   == BCmp(BShl(R(e), 1), d)
      q1  == IF c > 0 \/ (c = 0 /\ BSign(BMod(q, BInt(2))) # 0) THEN BAdd(q, BInt(1)) ELSE q
  IN IF BCmp(q1, B2p53) = 0 THEN Pack(neg, B2p52, e + 1) ELSE Pack(neg, q1, e)
RoundDy(neg0, m, e) == IF e >= 0 THEN RoundRat(neg0, BShl(m, e), BInt(1))
                       ELSE RoundRat(neg0, m, BShl(BInt(1), -e))
\* round a fixed-point number to a double
OfFx(v) == RoundDy(FALSE, v, -F)

NegB(b) == <<IF b[1] < 0 THEN (b[1] + 2147483647) + 1 ELSE (b[1] - 2147483647) - 1, b[2]>>
QNaN == <<2146959360, 0>>
\* IEEE arithmetic; every NaN is represented by QNaN
Add64(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN QNaN
  ELSE IF IsInf(a) /\ IsInf(b) THEN (IF a = b THEN a ELSE QNaN)
  ELSE IF IsInf(a) THEN a ELSE IF IsInf(b) THEN b
  ELSE LET e == IF Exp2(a) < Exp2(b) THEN Exp2(a) ELSE Exp2(b)
           m == BAdd(BShl(Man(a), Exp2(a) - e), BShl(Man(b), Exp2(b) - e))
       IN RoundDy(Neg(a) /\ Neg(b), m, e)
Sub64(a, b) == Add64(a, NegB(b))
Mul64(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN QNaN
  ELSE IF IsInf(a) \/ IsInf(b) THEN (IF IsZero(a) \/ IsZero(b) THEN QNaN ELSE InfB(Neg(a) # Neg(b)))
  ELSE RoundDy(Neg(a) # Neg(b), BMul(Man(a), Man(b)), Exp2(a) + Exp2(b))
Div64(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN QNaN
  ELSE IF IsInf(a) THEN (IF IsInf(b) THEN QNaN ELSE InfB(Neg(a) # Neg(b)))
  ELSE IF IsInf(b) THEN ZeroS(Neg(a) # Neg(b))
  ELSE IF IsZero(b) THEN (IF IsZero(a) THEN QNaN ELSE InfB(Neg(a) # Neg(b)))
  ELSE LET e == Exp2(a) - Exp2(b)
           sg == IF Neg(b) THEN BNeg(Man(a)) ELSE Man(a)
           dn == BAbs(Man(b))
       IN IF e >= 0 THEN RoundRat(Neg(a) # Neg(b), BShl(sg, e), dn)
          ELSE RoundRat(Neg(a) # Neg(b), sg, BShl(dn, -e))
\* number of representable doubles between two finite doubles of the same sign
Ord(b) == LET m == BAdd(BShl(BInt(Lo31(b[1])), 32), LoU(b[2])) IN IF Neg(b) THEN BNeg(m) ELSE m
Ulps(a, b) == BAbs(BSub(Ord(a), Ord(b)))

(* Exact dyadic rationals <<m, e>> = m 2^e *)
Dy(b) == << Man(b), Exp2(b) >>
DyI(i) == << BInt(i), 0 >>
DyB(v) == << v, 0 >>
DyZero == << BInt(0), 0 >>
DyAdd(p, q) ==
  IF BSign(p[1]) = 0 THEN q ELSE IF BSign(q[1]) = 0 THEN p
  ELSE IF p[2] <= q[2] THEN << BAdd(p[1], BShl(q[1], q[2] - p[2])), p[2] >>
  ELSE << BAdd(BShl(p[1], p[2] - q[2]), q[1]), q[2] >>
DyNeg(p) == << BNeg(p[1]), p[2] >>
DySub(p, q) == DyAdd(p, DyNeg(q))
DyMul(p, q) == << BMul(p[1], q[1]), p[2] + q[2] >>
DyAbs(p) == << BAbs(p[1]), p[2] >>
DySign(p) == BSign(p[1])
DyCmp(p, q) == DySign(DySub(p, q))
DyLe(p, q) == DyCmp(p, q) <= 0
DyShl(p, k) == << p[1], p[2] + k >>
\* value of a non-negative dyadic as fixed point, truncated
DyFx(p) == BScale(p[1], p[2] + F)
\* an integer not below a non-negative dyadic
DyFxUp(p) == BAdd(BScale(p[1], p[2]), BInt(1))
DyMax(p, q) == IF DyLe(p, q) THEN q ELSE p
=============================================================================
