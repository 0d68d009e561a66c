------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers.  The meaning of every operator is its     *)
(* definition in BigIntDef; TLC evaluates it by the Java override class    *)
(* BigInt, which BigIntCheck compares with these definitions.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL D == INSTANCE BigIntDef

BInt(i)         == D!DInt(i)
BNeg(a)         == D!DNeg(a)
BAbs(a)         == D!DAbs(a)
BSign(a)        == D!DSign(a)
BAdd(a, b)      == D!DAdd(a, b)
BSub(a, b)      == D!DSub(a, b)
BMul(a, b)      == D!DMul(a, b)
BCmp(a, b)      == D!DCmp(a, b)
BDiv(a, b)      == D!DDiv(a, b)      \* floor
BMod(a, b)      == D!DMod(a, b)      \* a - b*floor(a/b)
BShl(a, k)      == D!DShl(a, k)
BShr(a, k)      == D!DShr(a, k)      \* floor(a / 2^k)
BMulShr(a, b, k) == D!DMulShr(a, b, k) \* floor(a*b / 2^k)
BBitLen(a)      == D!DBitLen(a)
BSqrt(a)        == D!DSqrt(a)        \* floor
BToInt(a)       == D!DToInt(a)       \* |a| < 2^31

\* Derived, not overridden.
BZero == BInt(0)
BOne  == BInt(1)
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BEq(a, b) == BCmp(a, b) = 0
BMax(a, b) == IF BCmp(a, b) >= 0 THEN a ELSE b
BMin(a, b) == IF BCmp(a, b) <= 0 THEN a ELSE b
\* shift by a possibly negative amount
BScale(a, k) == IF k >= 0 THEN BShl(a, k) ELSE BShr(a, -k)
=============================================================================
