---------------------------- MODULE BigIntCheck ----------------------------
(***************************************************************************)
(* TLC evaluates every operator twice - by definition (BigIntDef) and by   *)
(* the Java override (BigInt) - on corner cases and on a pseudo-random     *)
(* walk, and compares.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
B == INSTANCE BigInt
D == INSTANCE BigIntDef
CONSTANT Steps
VARIABLES i, x, y

Corner == {0, 1, -1, 2, -2, 3, 32767, 32768, -32768, 32769, 1073741823, 1073741824,
           2147483647, -2147483647, -2147483647 - 1, 65535, -65536}
Ok(a, b) ==
  /\ B!BNeg(a) = D!DNeg(a)          /\ B!BAbs(a) = D!DAbs(a)
  /\ B!BSign(a) = D!DSign(a)        /\ B!BAdd(a, b) = D!DAdd(a, b)
  /\ B!BSub(a, b) = D!DSub(a, b)    /\ B!BMul(a, b) = D!DMul(a, b)
  /\ B!BCmp(a, b) = D!DCmp(a, b)    /\ B!BBitLen(a) = D!DBitLen(a)
  /\ \A k \in {0, 1, 14, 15, 16, 29, 31, 45} :
        B!BShl(a, k) = D!DShl(a, k) /\ B!BShr(a, k) = D!DShr(a, k) /\ B!BMulShr(a, b, k) = D!DMulShr(a, b, k)
  /\ D!DSign(b) # 0 => B!BDiv(a, b) = D!DDiv(a, b) /\ B!BMod(a, b) = D!DMod(a, b)
  /\ D!DSign(a) >= 0 => B!BSqrt(a) = D!DSqrt(a)
  /\ D!DBitLen(a) <= 31 /\ a # <<-1, 0, 0, 2>> /\ a # <<1, 0, 0, 2>> => B!BToInt(a) = D!DToInt(a)
Init == /\ i = 0
        /\ \E p \in Corner, q \in Corner : x = D!DInt(p) /\ y = D!DInt(q) /\ B!BInt(p) = x /\ B!BInt(q) = y
Next == \/ /\ i < Steps
           /\ i' = i + 1
           /\ y' = x
           /\ \* grow, mix and occasionally shrink
              x' = IF D!DBitLen(x) > 300 THEN D!DDiv(x, D!DAdd(y, D!DInt(7)))
                   ELSE D!DSub(D!DMul(x, D!DAdd(y, D!DInt(1000003 + i))), D!DInt(777 * i - 1))
Agree == Ok(x, y) /\ Ok(y, x)
Spec == Init /\ [][Next]_<<i, x, y>>
=============================================================================
