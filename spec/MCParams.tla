------------------------------- MODULE MCParams -------------------------------
(***************************************************************************)
(* Checked arithmetic on parameters: a behaviour starts from a valid       *)
(* parameter and applies operations; a result that is not a valid          *)
(* parameter is refused and the parameter stays as it was.  In every state *)
(* the value is valid, and the double-precision operations and the text    *)
(* conversion of modules F64 and Params obey the laws that define them.    *)
(* With Gen = 1 behaviours are printed for replay on the crate.            *)
(***************************************************************************)
EXTENDS Params, Json
CONSTANTS Starts, Operands, Depth, Gen
VARIABLES x,      \* the parameter (a double)
          last,   \* the operation that led here: <<op, operand, value before, result>>
          h       \* operations so far
pvars == << x, last, h >>

Q(p, q) == RoundRat(p < 0, BInt(p), BInt(q))
MinP == << -1074790401, -1 >>          \* -1 + 2^-53
MaxP == << 2146435071, -1 >>
MinSub == << 0, 1 >>
Big == << 1765977096, 0 >>             \* about 1e200
SomeStarts == { ZeroB, Q(1, 2), MinP, MaxP, MinSub, Q(1, 3), Q(-3, 4), OneB, Q(17, 1), Big, << 1048576, 0 >> }
AllOperands == { ZeroB, NegB(ZeroB), Q(1, 2), OneB, NegOneB, Q(-1, 2), Q(3, 1), Q(-2, 1), Q(1, 10), MaxP, NegB(MaxP), MinSub, Big,
                 MinP, InfB(FALSE), InfB(TRUE), QNaN, Q(1, 3), << -1074790400, 1 >> }
FewOperands == { ZeroB, OneB, NegOneB, Q(-1, 2), Q(3, 1), MaxP, MinSub, QNaN, Q(1, 10), MinP }
FewStarts == { ZeroB, MinP, MaxP, Q(1, 3), MinSub }
Ops == {"add", "sub", "mul", "div", "pow"}

Init == x \in Starts /\ last = << "start", x, x, x >> /\ h = << << "new", x >> >>
Apply(o, y) ==
  LET r == TLCEval(Arith(o, x, y))
  IN /\ x' = IF Valid(r) THEN r ELSE x
     /\ last' = << o, y, x, r >>
     /\ h' = Append(h, << o, y >>)
Calls == /\ Len(h) < Depth
        /\ IF Gen = 0 THEN \E o \in Ops, y \in Operands \cup { x } : Apply(o, y)
           ELSE \E o \in { RandomElement(Ops) }, y \in { RandomElement(Operands \cup { x }) } : Apply(o, y)
Finish == /\ Gen = 1 /\ Len(h) = Depth /\ PrintT("@@JOB " \o ToJson(h))
          /\ h' = Append(h, << "end", x >>) /\ UNCHANGED << x, last >>
Next == Calls \/ Finish
Spec == Init /\ [][Next]_pvars

(* ------------------------------ the model ------------------------------- *)
AlwaysValid == Valid(x)
\* refused exactly when the result is not finite or not above -1
Refused == last[1] # "start" =>
  LET r == last[4] IN (x = r) \/ (x = last[3] /\ (IsNaN(r) \/ IsInf(r) \/ Cmp64(r, NegOneB) <= 0))
(* -------------------------- double precision ---------------------------- *)
RoundTrip == RoundDy(Neg(x), Man(x), Exp2(x)) = x
Next64(b) == << IF b[2] = -1 THEN b[1] + 1 ELSE b[1], IF b[2] = -1 THEN 0 ELSE IF b[2] = 2147483647 THEN (-2147483647) - 1 ELSE b[2] + 1 >>  \* away from zero
\* r is nearest to the exact dyadic value d, ties to even
Nearest(r, d) == IF ~IsFin(r) THEN DyLe(<< BSub(BShl(BInt(1), 54), BInt(1)), 970 >>, DyAbs(d))
  ELSE LET e == DyAbs(DySub(d, Dy(r)))
           up == DySub(IF r = MaxP \/ NegB(r) = MaxP THEN DyNeg(DyNeg(<< BInt(IF Neg(r) THEN -1 ELSE 1), 1024 >>)) ELSE Dy(Next64(r)), Dy(r))
           half == DyShl(DyAbs(up), -1)
           dn == IF IsZero(r) THEN half
                 ELSE LET pr == << IF r[2] = 0 THEN r[1] - 1 ELSE r[1], IF r[2] = 0 THEN -1 ELSE IF r[2] = (-2147483647) - 1 THEN 2147483647 ELSE r[2] - 1 >>
                      IN DyShl(DyAbs(DySub(Dy(r), Dy(pr))), -1)
           lim == IF DyCmp(DyAbs(d), DyAbs(Dy(r))) >= 0 THEN half ELSE dn
       IN DyCmp(e, lim) < 0 \/ (DyCmp(e, lim) = 0 /\ r[2] % 2 = 0)
FinOps == { y \in Operands : IsFin(y) }
AddNearest == \A y \in FinOps : Nearest(Add64(x, y), DyAdd(Dy(x), Dy(y))) /\ Add64(x, y) = Add64(y, x) /\ Sub64(x, y) = Add64(x, NegB(y))
MulNearest == \A y \in FinOps : Nearest(Mul64(x, y), DyMul(Dy(x), Dy(y))) /\ Mul64(x, y) = Mul64(y, x)
\* division: |q y - x| <= |y| ulp(q)/2
DivNearest == \A y \in FinOps : ~IsZero(y) =>
  LET q == Div64(x, y)
  IN IF IsFin(q) /\ IsFin(Next64(q))
     THEN DyLe(DyAbs(DySub(DyMul(Dy(q), Dy(y)), Dy(x))), DyShl(DyAbs(DyMul(DySub(Dy(Next64(q)), Dy(q)), Dy(y))), -1))
     ELSE DyLe(DyAbs(DyMul(<< BSub(BShl(BInt(1), 54), BInt(1)), 970 >>, Dy(y))), DyAbs(Dy(x))) \/ IsFin(q)
Special == /\ \A y \in Operands : IsNaN(y) => \A o \in {"add", "sub", "mul", "div"} : IsNaN(Arith(o, x, y))
           /\ Add64(x, ZeroB) = (IF x = NegB(ZeroB) THEN ZeroB ELSE x) /\ Mul64(x, OneB) = x /\ Div64(x, OneB) = x
           /\ IsZero(Sub64(x, x)) /\ IsNaN(Div64(ZeroB, ZeroB)) /\ IsNaN(Sub64(InfB(FALSE), InfB(FALSE)))
           /\ (IsZero(x) \/ Div64(x, x) = OneB) /\ IsInf(Div64(OneB, ZeroB)) /\ IsZero(Div64(x, InfB(FALSE)))
Near1(u, v) == u = v \/ (IsFin(u) /\ IsFin(v) /\ BLe(Ulps(u, v), BInt(1)))
PowLaws == /\ PowExact(x, ZeroB) = OneB /\ (PowExact(x, OneB) = x \/ x = NegB(ZeroB) \/ Near1(PowExact(x, OneB), x))
           /\ Near1(PowExact(x, Q(2, 1)), AbsB(Mul64(x, x)))
           /\ (IsZero(x) \/ Near1(PowExact(x, NegOneB), Div64(OneB, x)))
           /\ ((~Neg(x) /\ ~IsZero(x) /\ ExpF(x) > 1000 /\ ExpF(x) < 1046) => Near1(PowExact(x, Q(1, 2)), OfFx(FSqrt(Fx(x)))))
           /\ ((Neg(x) /\ ~IsZero(x)) => IsNaN(PowExact(x, Q(1, 2))))
(* ------------------------------ text form ------------------------------- *)
RECURSIVE Digits(_)
Digits(v) == IF BCmp(v, BInt(10)) < 0 THEN << BToInt(v) + 48 >> ELSE Append(Digits(BDiv(v, BInt(10))), BToInt(BMod(v, BInt(10))) + 48)
Pow5(k) == FoldLeft(LAMBDA v, i : BMul(v, BInt(5)), BInt(1), [i \in 1..k |-> i])
NumText(k) == IF k = 0 THEN << 48 >> ELSE Digits(BInt(k))
\* the exact decimal expansion of m 2^e (e <= 0): (m 5^-e) e(e)
ExactText(neg, m, e) == (IF neg THEN << 45 >> ELSE << >>) \o
  (IF e >= 0 THEN Digits(BShl(m, e)) ELSE Digits(BMul(m, Pow5(-e))) \o << 101, 45 >> \o NumText(-e))
ShortEnough == Exp2(x) > -300 /\ Exp2(x) < 300
TextExact == ShortEnough => Parse(ExactText(Neg(x), BAbs(Man(x)), Exp2(x))) = Dbl(x)
\* halfway to the next double: ties to even, anything more goes up
TextHalfway == (ShortEnough /\ Exp2(x) <= 0 /\ ~IsZero(x)) =>
  LET t == ExactText(Neg(x), BAdd(BShl(BAbs(Man(x)), 1), BInt(1)), Exp2(x) - 1)
      digs == SelectSeq(t, LAMBDA ch : ch # 45)
      cut == CHOOSE k \in 1..Len(t) : t[k] = 101
      more == SubSeq(t, 1, cut - 1) \o << 46, 48, 48, 49 >> \o SubSeq(t, cut, Len(t))
      less == SubSeq(t, 1, cut - 2) \o << 52, 46, 57, 57 >> \o SubSeq(t, cut, Len(t))     \* the last digit of a halfway point is 5
  IN /\ Parse(t) = Dbl(IF x[2] % 2 = 0 THEN x ELSE Next64(x))
     /\ t[cut - 1] = 53 /\ Parse(more) = Dbl(Next64(x)) /\ Parse(less) = Dbl(x)
\* the grammar, as a language over a few characters
Ch == << 49, 46, 101, 45, 43 >>   \* 1 . e - +
Strs(k) == UNION { [1..i -> { Ch[c] : c \in 1..5 }] : i \in 0..k }
Ds == { << >>, << 49 >>, << 49, 49 >>, << 49, 49, 49 >>, << 49, 49, 49, 49 >>, << 49, 49, 49, 49, 49 >> }
Mant == (Ds \ { << >> }) \cup { d \o << 46 >> : d \in Ds \ { << >> } } \cup { d \o << 46 >> \o e : d \in Ds, e \in Ds \ { << >> } }
Sgs == { << >>, << 45 >>, << 43 >> }
Exps == { << >> } \cup { << 101 >> \o s \o d : s \in Sgs, d \in Ds \ { << >> } }
Lang == { s \o w \o e : s \in Sgs, w \in Mant, e \in Exps }
Grammar == last[1] = "start" /\ x = ZeroB => LET lang == TLCEval(Lang) IN \A t \in Strs(5) : (Parse(t) # Malformed) <=> (t \in lang)
View == << x, last, IF Gen = 1 THEN h ELSE << Len(h) >> >>
=============================================================================
