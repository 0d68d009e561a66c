----------------------------- MODULE BigIntDef -----------------------------
(***************************************************************************)
(* Arbitrary-precision integers, DEFINED in TLA+.                          *)
(*                                                                         *)
(* An integer is the sequence <<sign, l1, ..., lk>> with sign in {-1,0,1}  *)
(* and limbs in base 2^15, least significant first, lk # 0; zero is <<0>>. *)
(* TLC integers are 32 bit, so everything here stays below 2^31.           *)
(* Module BigInt exposes the same operators; TLC evaluates those by a Java *)
(* override (spec/java/BigInt.java) and module BigIntCheck makes TLC       *)
(* compare the override with the definitions below.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

BASE == 32768
LOGB == 15

Dig(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s)-1)) ELSE s
Idx(n) == [i \in 1..n |-> i]
MaxOf(a, b) == IF a >= b THEN a ELSE b

\* ---- magnitudes ----
MagOfNat(n) == Trim(<<n % BASE, (n \div BASE) % BASE, n \div (BASE * BASE)>>)
MagCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF D = {} THEN 0 ELSE LET m == Max(D) IN IF a[m] < b[m] THEN -1 ELSE 1
MagAdd(a, b) ==
  LET n == MaxOf(Len(a), Len(b)) + 1
      r == FoldLeft(LAMBDA st, i :
             LET t == Dig(a, i) + Dig(b, i) + st[2]
             IN << Append(st[1], t % BASE), t \div BASE >>, << <<>>, 0 >>, Idx(n))
  IN Trim(r[1])
MagSub(a, b) == \* requires a >= b
  LET r == FoldLeft(LAMBDA st, i :
             LET t == Dig(a, i) - Dig(b, i) - st[2]
             IN IF t < 0 THEN << Append(st[1], t + BASE), 1 >> ELSE << Append(st[1], t), 0 >>,
             << <<>>, 0 >>, Idx(Len(a)))
  IN Trim(r[1])
MagMul1(a, d, sh) == \* a * d * BASE^sh
  LET r == FoldLeft(LAMBDA st, i :
             LET t == Dig(a, i) * d + st[2]
             IN << Append(st[1], t % BASE), t \div BASE >>,
             << [i \in 1..sh |-> 0], 0 >>, Idx(Len(a) + 1))
  IN Trim(r[1])
MagMul(a, b) == FoldLeft(LAMBDA acc, j : MagAdd(acc, MagMul1(a, b[j], j-1)), <<>>, Idx(Len(b)))
RECURSIVE Pow2Nat(_)
Pow2Nat(k) == IF k = 0 THEN 1 ELSE 2 * Pow2Nat(k-1)
MagShl(a, k) == IF a = <<>> THEN <<>> ELSE MagMul1(a, Pow2Nat(k % LOGB), k \div LOGB)
MagShr(a, k) == \* floor(a / 2^k)
  LET ws == k \div LOGB
      p  == Pow2Nat(k % LOGB)
      c  == SubSeq(a, ws + 1, Len(a))
  IN Trim([i \in 1..Len(c) |-> (Dig(c, i) \div p) + (Dig(c, i+1) % p) * (BASE \div p)])
MagBitLen(a) == IF a = <<>> THEN 0
                ELSE (Len(a)-1) * LOGB + CHOOSE b \in 1..LOGB : Pow2Nat(b-1) <= a[Len(a)] /\ a[Len(a)] < Pow2Nat(b)
\* binary long division: <<quotient, remainder>>
MagDivMod(a, b) ==
  FoldLeft(LAMBDA st, i :
     LET k == MagBitLen(a) - i
         bit == (a[k \div LOGB + 1] \div Pow2Nat(k % LOGB)) % 2
         r1 == MagAdd(MagAdd(st[2], st[2]), MagOfNat(bit))
         q1 == MagAdd(st[1], st[1])
     IN IF MagCmp(r1, b) >= 0 THEN << MagAdd(q1, <<1>>), MagSub(r1, b) >> ELSE << q1, r1 >>,
     << <<>>, <<>> >>, Idx(MagBitLen(a)))
MagSqrt(a) == \* floor square root, bit by bit
  FoldLeft(LAMBDA r, i :
     LET k == (MagBitLen(a) + 1) \div 2 - i
         c == MagAdd(r, MagShl(<<1>>, k))
     IN IF MagCmp(MagMul(c, c), a) <= 0 THEN c ELSE r,
     <<>>, Idx((MagBitLen(a) + 1) \div 2))

\* ---- signed ----
Mk(sg, m) == IF m = <<>> THEN <<0>> ELSE <<sg>> \o m
Sg(a) == a[1]
Mag(a) == Tail(a)
DInt(i) == IF i = 0 THEN <<0>> ELSE IF i > 0 THEN Mk(1, MagOfNat(i))
           ELSE IF i = -2147483647 - 1 THEN <<-1, 0, 0, 2>> ELSE Mk(-1, MagOfNat(-i))
DNeg(a) == <<-Sg(a)>> \o Mag(a)
DAbs(a) == <<Sg(a) * Sg(a)>> \o Mag(a)
DSign(a) == Sg(a)
DAdd(a, b) == IF Sg(a) = 0 THEN b ELSE IF Sg(b) = 0 THEN a
              ELSE IF Sg(a) = Sg(b) THEN Mk(Sg(a), MagAdd(Mag(a), Mag(b)))
              ELSE LET c == MagCmp(Mag(a), Mag(b))
                   IN IF c = 0 THEN <<0>>
                      ELSE IF c > 0 THEN Mk(Sg(a), MagSub(Mag(a), Mag(b)))
                      ELSE Mk(Sg(b), MagSub(Mag(b), Mag(a)))
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == Mk(Sg(a) * Sg(b), MagMul(Mag(a), Mag(b)))
DCmp(a, b) == DSign(DSub(a, b))
\* floor division by b # 0
DDiv(a, b) == LET qr == MagDivMod(Mag(a), Mag(b))
              IN IF Sg(a) * Sg(b) >= 0 THEN Mk(1, qr[1])
                 ELSE IF qr[2] = <<>> THEN Mk(-1, qr[1]) ELSE Mk(-1, MagAdd(qr[1], <<1>>))
DMod(a, b) == DSub(a, DMul(b, DDiv(a, b)))
DShl(a, k) == Mk(Sg(a), MagShl(Mag(a), k))
DShr(a, k) == IF Sg(a) >= 0 THEN Mk(1, MagShr(Mag(a), k)) ELSE DDiv(a, Mk(1, MagShl(<<1>>, k)))
DMulShr(a, b, k) == DShr(DMul(a, b), k)
DBitLen(a) == MagBitLen(Mag(a))
DSqrt(a) == Mk(1, MagSqrt(Mag(a)))
DToInt(a) == Sg(a) * (Dig(Mag(a), 1) + Dig(Mag(a), 2) * BASE + Dig(Mag(a), 3) * BASE * BASE)
=============================================================================
