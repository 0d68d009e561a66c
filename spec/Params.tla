------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* FiniteAboveNegOneF64: which doubles are valid, what the checked         *)
(* operations return, and the decimal text form.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigInt, Fix, F64, TLC

Valid(x) == IsFin(x) /\ Cmp64(x, NegOneB) > 0

(* ------------------------- checked arithmetic --------------------------- *)
IsIntegral(y) == \* finite y
  IsZero(y) \/ Exp2(y) >= 0 \/ (Exp2(y) > -64 /\ BSign(BMod(BAbs(Man(y)), BShl(BInt(1), -Exp2(y)))) = 0)
IsOdd(y) == IsIntegral(y) /\ ~IsZero(y) /\ Exp2(y) <= 0
            /\ BSign(BMod(BShr(BAbs(Man(y)), -Exp2(y)), BInt(2))) # 0
AbsB(x) == IF Neg(x) THEN NegB(x) ELSE x
\* ln |x| for a finite non-zero double
LnAbs(x) == LET m == BAbs(Man(x)) k == BBitLen(m) - 1
            IN BAdd(Ln(BScale(m, F - k)), BMul(BInt(Exp2(x) + k), Ln2))
\* the possible results of x^y as a set of doubles: exact cases are singletons, otherwise the
\* correctly rounded value and its neighbours within Slack units
Slack == 4
PowExact(x, y) == \* one value; NaN as QNaN
  IF IsZero(y) \/ x = OneB THEN OneB
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN QNaN
  ELSE IF IsInf(y)
  THEN LET c == BCmp(Ex(AbsB(x)), Ex(OneB))
       IN IF c = 0 THEN OneB ELSE IF (c > 0) = ~Neg(y) THEN InfB(FALSE) ELSE ZeroS(FALSE)
  ELSE IF IsZero(x)
  THEN LET s == Neg(x) /\ IsOdd(y) IN IF Neg(y) THEN InfB(s) ELSE ZeroS(s)
  ELSE IF Neg(x) /\ ~IsIntegral(y) THEN QNaN
  ELSE LET s == Neg(x) /\ IsOdd(y)
           l == LnAbs(x)
           e == BScale(BMul(l, Man(y)), Exp2(y))
       IN IF BLt(FInt(800), e) THEN InfB(s)
          ELSE IF BLt(e, FInt(-800)) THEN ZeroS(s)
          ELSE LET mk == ExpMK(e) IN RoundDy(s, IF s THEN BNeg(mk[1]) ELSE mk[1], mk[2] - F)
Arith(o, x, y) ==
  CASE o = "add" -> Add64(x, y)
    [] o = "sub" -> Sub64(x, y)
    [] o = "mul" -> Mul64(x, y)
    [] o = "div" -> Div64(x, y)
    [] o = "pow" -> PowExact(x, y)
\* r: recorded outcome, a record with field "some" (a double) or "none"
OptIs(r, v) == IF Valid(v) THEN "some" \in DOMAIN r /\ SameBits(r.some, v) ELSE "none" \in DOMAIN r
CloseTo(u, v) == \* within Slack units in the last place, finite u
  BLe(Ulps(u, v), BInt(Slack))
PowOk(r, v) ==
  \/ OptIs(r, v)
  \/ /\ ~IsNaN(v)
     /\ IF "some" \in DOMAIN r
        THEN Valid(r.some) /\ (IF IsInf(v) THEN CloseTo(r.some, <<2146435071, -1>>) ELSE CloseTo(r.some, v))
        ELSE \* rejected: only if the neighbourhood of v contains an invalid value
             IF IsInf(v) THEN TRUE
             ELSE CloseTo(v, NegOneB) \/ CloseTo(AbsB(v), <<2146435071, -1>>)
\* powers that are not computed: the outcome is fixed, sign of zero included
PowFixed(x, y) == IsZero(x) \/ IsZero(y) \/ x = OneB \/ ~IsFin(y) \/ y = OneB
OpOk(o, x, y, r) == IF o = "pow" /\ ~PowFixed(x, y) THEN PowOk(r, PowExact(x, y)) ELSE OptIs(r, Arith(o, x, y))

(* ------------------------------- parsing -------------------------------- *)
(* Strings are sequences of character codes.                                *)
Dig(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerS(t) == [i \in 1..Len(t) |-> Lower(t[i])]
RECURSIVE SpanDig(_, _)
SpanDig(t, i) == IF i <= Len(t) /\ Dig(t[i]) THEN SpanDig(t, i + 1) ELSE i   \* first non-digit position
DecVal(t, i, j) == \* digits t[i..j-1] as a BigInt
  FoldLeft(LAMBDA v, c : BAdd(BMul(v, BInt(10)), BInt(c - 48)), BInt(0), SubSeq(t, i, j - 1))
\* small exponent value, clamped
ExpVal(t, i, j) ==
  FoldLeft(LAMBDA v, c : IF v > 100000 THEN v ELSE v * 10 + (c - 48), 0, SubSeq(t, i, j - 1))
Pow10(k) == FoldLeft(LAMBDA v, i : BMul(v, BInt(10)), BInt(1), [i \in 1..k |-> i])
Malformed == <<"malformed">>
Dbl(b) == <<"double", b>>
\* correctly rounded m * 10^e (m >= 0), with a sign
Decimal(neg, m, e, nd) == \* nd: number of digits of m
  IF BSign(m) = 0 THEN ZeroS(neg)
  ELSE IF nd + e > 400 THEN InfB(neg)
  ELSE IF nd + e < -400 THEN ZeroS(neg)
  ELSE LET s == IF neg THEN BNeg(m) ELSE m
       IN IF e >= 0 THEN RoundRat(neg, BMul(s, Pow10(e)), BInt(1)) ELSE RoundRat(neg, s, Pow10(-e))
Parse(t) ==
  IF Len(t) = 0 THEN Malformed
  ELSE
  LET neg == t[1] = 45
      p == IF t[1] \in {43, 45} THEN 2 ELSE 1
      body == LowerS(SubSeq(t, p, Len(t)))
  IN CASE body = <<105, 110, 102>> \/ body = <<105, 110, 102, 105, 110, 105, 116, 121>> -> Dbl(InfB(neg))
       [] body = <<110, 97, 110>> -> Dbl(QNaN)
       [] OTHER ->
          LET i1 == SpanDig(t, p)                       \* end of integer digits
              dot == i1 <= Len(t) /\ t[i1] = 46
              f0 == IF dot THEN i1 + 1 ELSE i1
              f1 == IF dot THEN SpanDig(t, f0) ELSE i1  \* end of fraction digits
              nd == (i1 - p) + (f1 - f0)
              hasE == f1 <= Len(t) /\ Lower(t[f1]) = 101
              sg == hasE /\ f1 + 1 <= Len(t) /\ t[f1 + 1] \in {43, 45}
              e0 == IF hasE THEN f1 + (IF sg THEN 2 ELSE 1) ELSE f1
              e1 == IF hasE THEN SpanDig(t, e0) ELSE f1
              ev == IF hasE THEN (IF sg /\ t[f1 + 1] = 45 THEN -ExpVal(t, e0, e1) ELSE ExpVal(t, e0, e1)) ELSE 0
              m == BAdd(BMul(DecVal(t, p, i1), Pow10(f1 - f0)), DecVal(t, f0, f1))
          IN IF nd = 0 \/ (hasE /\ e1 = e0) \/ e1 # Len(t) + 1 THEN Malformed
             ELSE \* strip the order of magnitude: m has about BBitLen*0.301 digits
                  Dbl(LET dm == (BBitLen(m) * 3) \div 10 + 1   \* digits of m, +-1% + 1
                      IN Decimal(neg, m, ev - (f1 - f0), dm))
\* recorded parse outcome
ParseOk(t, r) ==
  LET v == Parse(t)
  IN IF v = Malformed THEN "err" \in DOMAIN r /\ r.err = "parse"
     ELSE IF Valid(v[2]) THEN "some" \in DOMAIN r /\ SameBits(r.some, v[2])
     ELSE "err" \in DOMAIN r /\ r.err = "range"
\* recorded text of value x
FmtOk(t, x) == LET v == Parse(t) IN v # Malformed /\ SameBits(v[2], x)
=============================================================================
