import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of module BigInt (see BigIntDef.tla for the definitions it must agree with). */
public class BigInt {
  /** A TLA+ tuple <<sign, limbs...>> that also caches the integer it denotes. */
  static final class Big extends TupleValue {
    final BigInteger v;
    Big(BigInteger v) { super(enc(v)); this.v = v; }
  }
  private static final IntValue[] LIMB = new IntValue[32768];
  static { for (int i = 0; i < LIMB.length; i++) LIMB[i] = IntValue.gen(i); }
  private static final IntValue POS = IntValue.gen(1), NEG = IntValue.gen(-1), ZERO = IntValue.gen(0);

  static Value[] enc(BigInteger v) {
    int s = v.signum();
    if (s == 0) return new Value[] {ZERO};
    byte[] by = v.abs().toByteArray();
    int bits = v.abs().bitLength();
    int n = (bits + 14) / 15, len = by.length;
    Value[] r = new Value[n + 1];
    r[0] = s > 0 ? POS : NEG;
    for (int i = 0; i < n; i++) {
      int bit = i * 15, b0 = bit >> 3, sh = bit & 7, acc = 0;
      for (int k = 0; k < 3; k++) { int idx = len - 1 - (b0 + k); if (idx >= 0) acc |= (by[idx] & 255) << (8 * k); }
      r[i + 1] = LIMB[(acc >> sh) & 0x7fff];
    }
    return r;
  }
  static BigInteger dec(Value x) {
    if (x instanceof Big) return ((Big) x).v;
    TupleValue t = (TupleValue) x.toTuple();
    BigInteger r = BigInteger.ZERO;
    for (int i = t.elems.length - 1; i >= 1; i--) r = r.shiftLeft(15).or(BigInteger.valueOf(((IntValue) t.elems[i]).val));
    return ((IntValue) t.elems[0]).val < 0 ? r.negate() : r;
  }
  static Value mk(BigInteger v) { return new Big(v); }
  private static BigInteger[] floorDivMod(BigInteger a, BigInteger b) {
    BigInteger[] q = a.divideAndRemainder(b);
    if (q[1].signum() != 0 && q[1].signum() != b.signum()) { q[0] = q[0].subtract(BigInteger.ONE); q[1] = q[1].add(b); }
    return q;
  }
  public static Value BInt(IntValue i) { return mk(BigInteger.valueOf(i.val)); }
  public static Value BNeg(Value a) { return mk(dec(a).negate()); }
  public static Value BAbs(Value a) { return mk(dec(a).abs()); }
  public static Value BSign(Value a) { return IntValue.gen(dec(a).signum()); }
  public static Value BAdd(Value a, Value b) { return mk(dec(a).add(dec(b))); }
  public static Value BSub(Value a, Value b) { return mk(dec(a).subtract(dec(b))); }
  public static Value BMul(Value a, Value b) { return mk(dec(a).multiply(dec(b))); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }
  public static Value BDiv(Value a, Value b) { return mk(floorDivMod(dec(a), dec(b))[0]); }
  public static Value BMod(Value a, Value b) { return mk(floorDivMod(dec(a), dec(b))[1]); }
  public static Value BShl(Value a, IntValue k) { return mk(dec(a).shiftLeft(k.val)); }
  public static Value BShr(Value a, IntValue k) { return mk(dec(a).shiftRight(k.val)); }
  public static Value BMulShr(Value a, Value b, IntValue k) { return mk(dec(a).multiply(dec(b)).shiftRight(k.val)); }
  public static Value BBitLen(Value a) { return IntValue.gen(dec(a).abs().bitLength()); }
  public static Value BSqrt(Value a) { return mk(dec(a).sqrt()); }
  public static Value BToInt(Value a) { return IntValue.gen(dec(a).intValueExact()); }
}
