package vp;

import java.math.BigInteger;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** java.math.BigInteger evaluation of the operators of spec/BigNat.tla. */
public class BigNatOv {
  private static final IntValue[] BYTES = new IntValue[256];

  static {
    for (int i = 0; i < 256; i++) BYTES[i] = IntValue.gen(i);
  }

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  static byte[] bytes(Value v) {
    Value[] e = elems(v);
    byte[] b = new byte[e.length];
    for (int i = 0; i < b.length; i++) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      b[i] = (byte) x;
    }
    return b;
  }

  static Value fromBytes(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = BYTES[b[i] & 255];
    return new TupleValue(e);
  }

  static BigInteger get(Value v) {
    byte[] b = bytes(v);
    byte[] r = new byte[b.length + 1];
    for (int i = 0; i < b.length; i++) r[b.length - i] = b[i];
    return new BigInteger(r);
  }

  static Value put(BigInteger x) {
    if (x.signum() < 0) throw new RuntimeException("negative BigNat");
    byte[] b = x.toByteArray();
    int s = 0;
    while (s < b.length && b[s] == 0) s++;
    Value[] e = new Value[b.length - s];
    for (int i = 0; i < e.length; i++) e[i] = BYTES[b[b.length - 1 - i] & 255];
    return new TupleValue(e);
  }

  @TLAPlusOperator(identifier = "Norm", module = "BigNat", warn = false)
  public static Value norm(Value a) {
    Value[] e = elems(a);
    int n = e.length;
    while (n > 0 && ((IntValue) e[n - 1]).val == 0) n--;
    return new TupleValue(java.util.Arrays.copyOf(e, n));
  }

  @TLAPlusOperator(identifier = "Cmp", module = "BigNat", warn = false)
  public static Value cmp(Value a, Value b) {
    return IntValue.gen(get(a).compareTo(get(b)));
  }

  @TLAPlusOperator(identifier = "Add", module = "BigNat", warn = false)
  public static Value add(Value a, Value b) {
    return put(get(a).add(get(b)));
  }

  @TLAPlusOperator(identifier = "Sub", module = "BigNat", warn = false)
  public static Value sub(Value a, Value b) {
    return put(get(a).subtract(get(b)));
  }

  @TLAPlusOperator(identifier = "Mul", module = "BigNat", warn = false)
  public static Value mul(Value a, Value b) {
    return put(get(a).multiply(get(b)));
  }

  @TLAPlusOperator(identifier = "DivMod", module = "BigNat", warn = false)
  public static Value divMod(Value a, Value m) {
    BigInteger[] r = get(a).divideAndRemainder(get(m));
    return new TupleValue(new Value[] {put(r[0]), put(r[1])});
  }

  @TLAPlusOperator(identifier = "Mod", module = "BigNat", warn = false)
  public static Value mod(Value a, Value m) {
    return put(get(a).mod(get(m)));
  }

  @TLAPlusOperator(identifier = "AddMod", module = "BigNat", warn = false)
  public static Value addMod(Value a, Value b, Value m) {
    return put(get(a).add(get(b)).mod(get(m)));
  }

  @TLAPlusOperator(identifier = "SubMod", module = "BigNat", warn = false)
  public static Value subMod(Value a, Value b, Value m) {
    return put(get(a).subtract(get(b)).mod(get(m)));
  }

  @TLAPlusOperator(identifier = "MulMod", module = "BigNat", warn = false)
  public static Value mulMod(Value a, Value b, Value m) {
    return put(get(a).multiply(get(b)).mod(get(m)));
  }

  @TLAPlusOperator(identifier = "PowMod", module = "BigNat", warn = false)
  public static Value powMod(Value a, Value e, Value m) {
    return put(get(a).modPow(get(e), get(m)));
  }

  @TLAPlusOperator(identifier = "InvMod", module = "BigNat", warn = false)
  public static Value invMod(Value a, Value m) {
    BigInteger mm = get(m), x = get(a).mod(mm);
    return x.signum() == 0 ? put(x) : put(x.modInverse(mm));
  }

  @TLAPlusOperator(identifier = "ToBytes", module = "BigNat", warn = false)
  public static Value toBytes(Value a, Value n) {
    Value[] e = elems(a);
    Value[] r = new Value[((IntValue) n).val];
    for (int i = 0; i < r.length; i++) r[i] = i < e.length ? e[i] : BYTES[0];
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "LimbValue", module = "BigNat", warn = false)
  public static Value limbValue(Value f, Value w, Value m) {
    Value[] fe = elems(f), we = elems(w);
    BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < fe.length; i++)
      s = s.add(BigInteger.valueOf(((IntValue) fe[i]).val).shiftLeft(((IntValue) we[i]).val));
    return put(s.mod(get(m)));
  }

  /** n times a on -x^2+y^2 = 1+d x^2 y^2, in extended projective coordinates (complete formulas). */
  @TLAPlusOperator(identifier = "LawMul", module = "EdwardsLaw", warn = false)
  public static Value lawMul(Value pv, Value dv, Value nv, Value av) {
    BigInteger p = get(pv), d = get(dv), n = get(nv);
    Value[] ae = elems(av);
    BigInteger x = get(ae[0]), y = get(ae[1]);
    BigInteger[] a = {x, y, BigInteger.ONE, x.multiply(y).mod(p)};
    BigInteger[] r = {BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
    BigInteger d2 = d.shiftLeft(1).mod(p);
    BigInteger[][][] table = n.bitLength() > 256 ? null : tableOf(Arrays.asList(p, d, x, y), a, d2, p);
    if (table != null) {
      for (int i = 0; 4 * i < n.bitLength(); i++) {
        int w = n.shiftRight(4 * i).intValue() & 15;
        if (w != 0) r = ext(r, table[i][w - 1], d2, p);
      }
    } else {
      for (int i = n.bitLength() - 1; i >= 0; i--) {
        r = ext(r, r, d2, p);
        if (n.testBit(i)) r = ext(r, a, d2, p);
      }
    }
    BigInteger z = r[2].modInverse(p);
    return new TupleValue(new Value[] {put(r[0].multiply(z).mod(p)), put(r[1].multiply(z).mod(p))});
  }

  /** j 16^i a for a point that keeps coming back, else null. */
  private static final ConcurrentHashMap<List<BigInteger>, BigInteger[][][]> TABLES = new ConcurrentHashMap<>();
  private static final ConcurrentHashMap<List<BigInteger>, Integer> SEEN = new ConcurrentHashMap<>();

  private static BigInteger[][][] tableOf(List<BigInteger> key, BigInteger[] a, BigInteger d2, BigInteger p) {
    BigInteger[][][] t = TABLES.get(key);
    if (t != null) return t;
    if (SEEN.size() > 4096) SEEN.clear();
    if (SEEN.merge(key, 1, Integer::sum) < 6) return null;
    if (TABLES.size() > 512) TABLES.clear();
    t = new BigInteger[64][15][];
    BigInteger[] row = a;
    for (int i = 0; i < 64; i++) {
      t[i][0] = row;
      for (int j = 1; j < 15; j++) t[i][j] = ext(t[i][j - 1], row, d2, p);
      row = ext(t[i][14], row, d2, p);
    }
    TABLES.put(key, t);
    return t;
  }

  private static BigInteger[] ext(BigInteger[] s, BigInteger[] t, BigInteger d2, BigInteger p) {
    BigInteger a = s[1].subtract(s[0]).multiply(t[1].subtract(t[0])).mod(p);
    BigInteger b = s[1].add(s[0]).multiply(t[1].add(t[0])).mod(p);
    BigInteger c = s[3].multiply(d2).mod(p).multiply(t[3]).mod(p);
    BigInteger dd = s[2].multiply(t[2]).shiftLeft(1).mod(p);
    BigInteger e = b.subtract(a), f = dd.subtract(c), g = dd.add(c), h = b.add(a);
    return new BigInteger[] {
      e.multiply(f).mod(p), g.multiply(h).mod(p), f.multiply(g).mod(p), e.multiply(h).mod(p)
    };
  }
}
