import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

// TLC module override for spec/BigNat.tla: same limb sequences, BigInteger arithmetic.
public class BigNat {
  private static final int W = 15, MASK = (1 << W) - 1;
  private static final IntValue[] LIMB = new IntValue[1 << W];
  private static final TupleValue ZERO = new TupleValue(new Value[0]);
  private static final int NP = 4096;
  private static final BigInteger[] P5 = new BigInteger[NP];
  private static final Value[] V5 = new Value[NP], V10 = new Value[NP], V2 = new Value[NP];
  static {
    for (int i = 0; i <= MASK; i++) LIMB[i] = IntValue.gen(i);
  }
  private static int i(Value v) { return ((IntValue) v).val; }

  static BigInteger big(Value v) {
    TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    Value[] e = t.elems;
    int n = e.length;
    if (n == 0) return BigInteger.ZERO;
    if (n <= 4) {
      long x = 0;
      for (int k = n - 1; k >= 0; k--) x = x << W | i(e[k]);
      return BigInteger.valueOf(x);
    }
    byte[] m = new byte[(n * W + 7) / 8];
    int len = m.length;
    for (int k = 0; k < n; k++) {
      int pos = k * W, by = pos >> 3, sh = pos & 7;
      int x = i(e[k]) << sh; // at most 22 bits
      m[len - 1 - by] |= (byte) x;
      if ((x >>> 8) != 0) m[len - 2 - by] |= (byte) (x >>> 8);
      if ((x >>> 16) != 0) m[len - 3 - by] |= (byte) (x >>> 16);
    }
    return new BigInteger(1, m);
  }
  static Value val(BigInteger b) {
    if (b.signum() == 0) return ZERO;
    int n = (b.bitLength() + W - 1) / W;
    Value[] e = new Value[n];
    if (n <= 4) {
      long x = b.longValue();
      for (int k = 0; k < n; k++) { e[k] = LIMB[(int) (x & MASK)]; x >>>= W; }
    } else {
      byte[] m = b.toByteArray();
      int len = m.length;
      for (int k = 0; k < n; k++) {
        int pos = k * W, by = pos >> 3, sh = pos & 7, x = 0;
        for (int j = 0; j < 3; j++) {
          int at = len - 1 - by - j;
          if (at >= 0) x |= (m[at] & 0xff) << (8 * j);
        }
        e[k] = LIMB[(x >>> sh) & MASK];
      }
    }
    return new TupleValue(e);
  }
  static synchronized BigInteger p5(int n) {
    if (P5[n] == null) P5[n] = BigInteger.valueOf(5).pow(n);
    return P5[n];
  }
  private static BigInteger nonneg(BigInteger x) {
    if (x.signum() < 0) throw new RuntimeException("BSub: negative result");
    return x;
  }

  public static Value BInt(Value n) { return val(nonneg(BigInteger.valueOf(i(n)))); }
  public static Value BToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value BCmp(Value a, Value b) {
    Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
    if (x.length != y.length) return IntValue.gen(x.length < y.length ? -1 : 1);
    for (int k = x.length - 1; k >= 0; k--) {
      int p = i(x[k]), q = i(y[k]);
      if (p != q) return IntValue.gen(p < q ? -1 : 1);
    }
    return IntValue.gen(0);
  }
  public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return val(nonneg(big(a).subtract(big(b)))); }
  public static Value BMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
  public static Value BPow2(Value n) {
    int k = i(n);
    if (k >= NP) return val(BigInteger.ONE.shiftLeft(k));
    if (V2[k] == null) V2[k] = val(BigInteger.ONE.shiftLeft(k));
    return V2[k];
  }
  public static Value BPow5(Value n) {
    int k = i(n);
    if (k >= NP) return val(BigInteger.valueOf(5).pow(k));
    if (V5[k] == null) V5[k] = val(p5(k));
    return V5[k];
  }
  public static Value BPow10(Value n) {
    int k = i(n);
    if (k >= NP) return val(BigInteger.TEN.pow(k));
    if (V10[k] == null) V10[k] = val(p5(k).shiftLeft(k));
    return V10[k];
  }
  public static Value BDivMod(Value a, Value b) {
    BigInteger[] r = big(a).divideAndRemainder(big(b));
    return new TupleValue(new Value[] {val(r[0]), val(r[1])});
  }
  public static Value BDiv(Value a, Value b) { return val(big(a).divide(big(b))); }
  public static Value BMod(Value a, Value b) { return val(big(a).mod(big(b))); }
  public static Value BBitLen(Value a) { return IntValue.gen(big(a).bitLength()); }
  public static Value BDigits(Value a) {
    BigInteger x = big(a);
    if (x.signum() == 0) return ZERO;
    String s = x.toString();
    Value[] e = new Value[s.length()];
    for (int k = 0; k < e.length; k++) e[k] = LIMB[s.charAt(k) - '0'];
    return new TupleValue(e);
  }
  public static Value BDigitLen(Value a) {
    BigInteger x = big(a);
    if (x.signum() == 0) return LIMB[0];
    // Estimate from below, then correct.
    int n = (int) ((x.bitLength() - 1) * 0.30102999566398114);
    while (x.compareTo(p5(n).shiftLeft(n)) >= 0) n++;
    return LIMB[n];
  }
  public static Value BFromDigits(Value s) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    StringBuilder sb = new StringBuilder("0");
    for (Value v : e) sb.append((char) ('0' + i(v)));
    return val(new BigInteger(sb.toString()));
  }
  public static Value BIsNat(Value a) {
    Value[] e = ((TupleValue) a.toTuple()).elems;
    for (Value v : e) if (i(v) < 0 || i(v) > MASK) return BoolValue.ValFalse;
    return e.length == 0 || i(e[e.length - 1]) != 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
