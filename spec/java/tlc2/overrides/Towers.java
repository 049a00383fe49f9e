package tlc2.overrides;

import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluations of the costly operators of Tower.tla. */
public class Towers {
  static final String M = "Tower";
  static final BigInteger O = BigInteger.ZERO, I = BigInteger.ONE;

  // ---- nested tuples <-> flat arrays
  private static int flat(Value x, BigInteger[] out, int i) {
    if (x instanceof BigVal || x instanceof IntValue) { out[i] = BigInts.z(x); return i + 1; }
    TupleValue t = (TupleValue) x.toTuple();
    for (Value e : t.elems) i = flat(e, out, i);
    return i;
  }
  static BigInteger[] in(Value x, int n) {
    BigInteger[] r = new BigInteger[n];
    if (flat(x, r, 0) != n) throw new RuntimeException("not an element of the tower: " + x);
    return r;
  }
  static Value t(Value... v) { return new TupleValue(v); }
  static Value o2(BigInteger[] a, int i) { return t(BigInts.v(a[i]), BigInts.v(a[i + 1])); }
  static Value o6(BigInteger[] a, int i) { return t(o2(a, i), o2(a, i + 2), o2(a, i + 4)); }
  static Value out(BigInteger[] a) {
    switch (a.length) { case 2: return o2(a, 0); case 6: return o6(a, 0); default: return t(o6(a, 0), o6(a, 6)); }
  }
  static BigInteger[] add(BigInteger[] a, BigInteger[] b, BigInteger p) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].add(b[i]).mod(p);
    return r;
  }
  static BigInteger[] sub(BigInteger[] a, BigInteger[] b, BigInteger p) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].subtract(b[i]).mod(p);
    return r;
  }
  // ---- products: the polynomial in w (w^12 = 2 w^6 - 2, u = w^6 - 1) is not used; schoolbook in (u, v, w)
  /** acc[k..k+1] += a * b in Z[u]/(u^2+1) */
  private static void acc(BigInteger[] r, int k, BigInteger a0, BigInteger a1, BigInteger b0, BigInteger b1, boolean xi) {
    BigInteger c0 = a0.multiply(b0).subtract(a1.multiply(b1)), c1 = a0.multiply(b1).add(a1.multiply(b0));
    if (xi) { BigInteger s = c0.subtract(c1); c1 = c0.add(c1); c0 = s; }
    r[k] = r[k].add(c0); r[k + 1] = r[k + 1].add(c1);
  }
  static BigInteger[] mul(BigInteger[] a, BigInteger[] b, BigInteger p) {
    int n = a.length;
    BigInteger[] r = new BigInteger[n];
    java.util.Arrays.fill(r, O);
    if (n == 2) acc(r, 0, a[0], a[1], b[0], b[1], false);
    else for (int w = 0; w < n; w += 6) for (int x = 0; x < n; x += 6)
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        int d = i + j + (w + x == 12 ? 1 : 0);                    // power of v
        // v^3 = xi, v^4 = xi v, v^5 = xi v^2
        acc(r, (w + x == 6 ? 6 : 0) + 2 * (d % 3), a[w + 2 * i], a[w + 2 * i + 1], b[x + 2 * j], b[x + 2 * j + 1], d >= 3);
      }
    for (int i = 0; i < n; i++) r[i] = r[i].mod(p);
    return r;
  }
  static BigInteger[] one(int n) {
    BigInteger[] r = new BigInteger[n];
    java.util.Arrays.fill(r, O); r[0] = I;
    return r;
  }
  static BigInteger[] pow(BigInteger[] a, BigInteger e, BigInteger p) {
    BigInteger[] r = one(a.length);
    for (int i = e.bitLength() - 1; i >= 0; i--) { r = mul(r, r, p); if (e.testBit(i)) r = mul(r, a, p); }
    return r;
  }
  static BigInteger inv(BigInteger a, BigInteger p) { return a.mod(p).signum() == 0 ? O : a.modInverse(p); }
  static BigInteger[] inv2(BigInteger[] a, BigInteger p) {
    BigInteger n = inv(a[0].multiply(a[0]).add(a[1].multiply(a[1])), p);
    return new BigInteger[] { a[0].multiply(n).mod(p), a[1].negate().multiply(n).mod(p) };
  }

  // ---- operators
  static BigInteger z(Value p) { return BigInts.z(p); }
  @TLAPlusOperator(identifier = "T2Add", module = "Tower") public static Value T2Add(Value a, Value b, Value p) { return out(add(in(a, 2), in(b, 2), z(p))); }
  @TLAPlusOperator(identifier = "T2Sub", module = "Tower") public static Value T2Sub(Value a, Value b, Value p) { return out(sub(in(a, 2), in(b, 2), z(p))); }
  @TLAPlusOperator(identifier = "T2Mul", module = "Tower") public static Value T2Mul(Value a, Value b, Value p) { return out(mul(in(a, 2), in(b, 2), z(p))); }
  @TLAPlusOperator(identifier = "T2Inv", module = "Tower") public static Value T2Inv(Value a, Value p) { return out(inv2(in(a, 2), z(p))); }
  @TLAPlusOperator(identifier = "T2Pow", module = "Tower") public static Value T2Pow(Value a, Value e, Value p) { return out(pow(in(a, 2), z(e), z(p))); }
  @TLAPlusOperator(identifier = "T6Add", module = "Tower") public static Value T6Add(Value a, Value b, Value p) { return out(add(in(a, 6), in(b, 6), z(p))); }
  @TLAPlusOperator(identifier = "T6Sub", module = "Tower") public static Value T6Sub(Value a, Value b, Value p) { return out(sub(in(a, 6), in(b, 6), z(p))); }
  @TLAPlusOperator(identifier = "T6Mul", module = "Tower") public static Value T6Mul(Value a, Value b, Value p) { return out(mul(in(a, 6), in(b, 6), z(p))); }
  @TLAPlusOperator(identifier = "T6Pow", module = "Tower") public static Value T6Pow(Value a, Value e, Value p) { return out(pow(in(a, 6), z(e), z(p))); }
  @TLAPlusOperator(identifier = "T12Add", module = "Tower") public static Value T12Add(Value a, Value b, Value p) { return out(add(in(a, 12), in(b, 12), z(p))); }
  @TLAPlusOperator(identifier = "T12Sub", module = "Tower") public static Value T12Sub(Value a, Value b, Value p) { return out(sub(in(a, 12), in(b, 12), z(p))); }
  @TLAPlusOperator(identifier = "T12Mul", module = "Tower") public static Value T12Mul(Value a, Value b, Value p) { return out(mul(in(a, 12), in(b, 12), z(p))); }
  @TLAPlusOperator(identifier = "T12Pow", module = "Tower") public static Value T12Pow(Value a, Value e, Value p) { return out(pow(in(a, 12), z(e), z(p))); }

  // ---- curves, affine; null is the neutral element.  A point is {x, y}, each an array of 1 or 2 residues.
  static BigInteger[] fmul(BigInteger[] a, BigInteger[] b, BigInteger p) {
    return a.length == 1 ? new BigInteger[] { a[0].multiply(b[0]).mod(p) } : mul(a, b, p); }
  static BigInteger[] finv(BigInteger[] a, BigInteger p) { return a.length == 1 ? new BigInteger[] { inv(a[0], p) } : inv2(a, p); }
  static boolean zero(BigInteger[] a) { for (BigInteger x : a) if (x.signum() != 0) return false; return true; }
  static BigInteger[][] line(BigInteger[][] a, BigInteger[] l, BigInteger[] x2, BigInteger p) {
    BigInteger[] x3 = sub(sub(fmul(l, l, p), a[0], p), x2, p);
    return new BigInteger[][] { x3, sub(fmul(l, sub(a[0], x3, p), p), a[1], p) };
  }
  static BigInteger[][] dbl(BigInteger[][] a, BigInteger p) {
    if (a == null || zero(a[1])) return null;
    BigInteger[] s = fmul(a[0], a[0], p);
    return line(a, fmul(add(add(s, s, p), s, p), finv(add(a[1], a[1], p), p), p), a[0], p);
  }
  static BigInteger[][] ecadd(BigInteger[][] a, BigInteger[][] b, BigInteger p) {
    if (a == null) return b;
    if (b == null) return a;
    if (java.util.Arrays.equals(a[0], b[0])) return java.util.Arrays.equals(a[1], b[1]) ? dbl(a, p) : null;
    return line(a, fmul(sub(b[1], a[1], p), finv(sub(b[0], a[0], p), p), p), b[0], p);
  }
  /** k a, by Jacobian triples (x / z^2, y / z^3); null is the neutral element */
  static BigInteger[][] jdbl(BigInteger[][] t, BigInteger p) {
    if (t == null || zero(t[1])) return null;
    BigInteger[] y2 = fmul(t[1], t[1], p), s = fmul(t[0], y2, p), x2 = fmul(t[0], t[0], p), m = add(add(x2, x2, p), x2, p), y4 = fmul(y2, y2, p);
    s = add(s, s, p); s = add(s, s, p);
    BigInteger[] x = sub(sub(fmul(m, m, p), s, p), s, p);
    y4 = add(y4, y4, p); y4 = add(y4, y4, p); y4 = add(y4, y4, p);
    BigInteger[] z = fmul(t[1], t[2], p);
    return new BigInteger[][] { x, sub(fmul(m, sub(s, x, p), p), y4, p), add(z, z, p) };
  }
  /** t + a, a affine */
  static BigInteger[][] jadd(BigInteger[][] t, BigInteger[][] a, BigInteger[] one, BigInteger p) {
    if (t == null) return new BigInteger[][] { a[0], a[1], one };
    BigInteger[] z2 = fmul(t[2], t[2], p), h = sub(fmul(a[0], z2, p), t[0], p), r = sub(fmul(a[1], fmul(z2, t[2], p), p), t[1], p);
    if (zero(h)) return zero(r) ? jdbl(t, p) : null;
    BigInteger[] h2 = fmul(h, h, p), h3 = fmul(h2, h, p), v = fmul(t[0], h2, p);
    BigInteger[] x = sub(sub(sub(fmul(r, r, p), h3, p), v, p), v, p);
    return new BigInteger[][] { x, sub(fmul(r, sub(v, x, p), p), fmul(t[1], h3, p), p), fmul(t[2], h, p) };
  }
  static BigInteger[][] ecmul(BigInteger[][] a, BigInteger k, BigInteger p) {
    if (a == null) return null;
    BigInteger[] one = one(a[0].length);
    BigInteger[][] r = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = jdbl(r, p); if (k.testBit(i)) r = jadd(r, a, one, p); }
    if (r == null) return null;
    BigInteger[] i = finv(r[2], p), i2 = fmul(i, i, p);
    return new BigInteger[][] { fmul(r[0], i2, p), fmul(r[1], fmul(i2, i, p), p) };
  }
  static BigInteger[][] pin(Value a, int n) {
    TupleValue t = (TupleValue) a.toTuple();
    if (t.elems.length == 0) return null;
    return new BigInteger[][] { in(t.elems[0], n), in(t.elems[1], n) };
  }
  static Value pout(BigInteger[][] a) {
    if (a == null) return t();
    return a[0].length == 1 ? t(BigInts.v(a[0][0]), BigInts.v(a[1][0])) : t(out(a[0]), out(a[1]));
  }
  @TLAPlusOperator(identifier = "E1Add", module = "Tower") public static Value E1Add(Value a, Value b, Value p) { return pout(ecadd(pin(a, 1), pin(b, 1), z(p))); }
  @TLAPlusOperator(identifier = "E1Mul", module = "Tower") public static Value E1Mul(Value a, Value k, Value p) { return pout(ecmul(pin(a, 1), z(k), z(p))); }
  @TLAPlusOperator(identifier = "E2Add", module = "Tower") public static Value E2Add(Value a, Value b, Value p) { return pout(ecadd(pin(a, 2), pin(b, 2), z(p))); }
  @TLAPlusOperator(identifier = "E2Mul", module = "Tower") public static Value E2Mul(Value a, Value k, Value p) { return pout(ecmul(pin(a, 2), z(k), z(p))); }
}
