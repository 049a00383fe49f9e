package tlc2.overrides;

import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluations of the operators of BigInts.tla. */
public class BigInts {
  static final int N = 1 << 16;
  static BigInteger z(Value x) {
    if (x instanceof BigVal) return ((BigVal) x).v;
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    throw new RuntimeException("not an integer: " + x);
  }
  static BigVal v(BigInteger b) { return new BigVal(b); }
  static BoolValue b(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "Z", module = "BigInts") public static Value Z(Value x) { return v(z(x)); }
  @TLAPlusOperator(identifier = "ZInt", module = "BigInts") public static Value ZInt(Value x) { return IntValue.gen(z(x).intValueExact()); }
  @TLAPlusOperator(identifier = "Hex", module = "BigInts") public static Value Hex(Value s) {
    String t = ((StringValue) s).val.toString();
    return v(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, 16));
  }
  @TLAPlusOperator(identifier = "DecZ", module = "BigInts") public static Value DecZ(Value s) {
    String t = ((StringValue) s).val.toString();
    return v(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, 10));
  }
  @TLAPlusOperator(identifier = "ZAdd", module = "BigInts") public static Value ZAdd(Value x, Value y) { return v(z(x).add(z(y))); }
  @TLAPlusOperator(identifier = "ZSub", module = "BigInts") public static Value ZSub(Value x, Value y) { return v(z(x).subtract(z(y))); }
  @TLAPlusOperator(identifier = "ZMul", module = "BigInts") public static Value ZMul(Value x, Value y) { return v(z(x).multiply(z(y))); }
  @TLAPlusOperator(identifier = "ZNeg", module = "BigInts") public static Value ZNeg(Value x) { return v(z(x).negate()); }
  @TLAPlusOperator(identifier = "ZMod", module = "BigInts") public static Value ZMod(Value x, Value m) { return v(z(x).mod(z(m))); }
  @TLAPlusOperator(identifier = "ZDiv", module = "BigInts") public static Value ZDiv(Value x, Value m) {
    BigInteger[] qr = z(x).divideAndRemainder(z(m));
    return v(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  @TLAPlusOperator(identifier = "ZPow", module = "BigInts") public static Value ZPow(Value x, Value e) { return v(z(x).pow(z(e).intValueExact())); }
  @TLAPlusOperator(identifier = "ZLt", module = "BigInts") public static Value ZLt(Value x, Value y) { return b(z(x).compareTo(z(y)) < 0); }
  @TLAPlusOperator(identifier = "ZLe", module = "BigInts") public static Value ZLe(Value x, Value y) { return b(z(x).compareTo(z(y)) <= 0); }
  @TLAPlusOperator(identifier = "ZIs", module = "BigInts") public static Value ZIs(Value x, Value y) { return b(z(x).equals(z(y))); }
  @TLAPlusOperator(identifier = "ZBit", module = "BigInts") public static Value ZBit(Value x, Value i) { return IntValue.gen(z(x).testBit(z(i).intValueExact()) ? 1 : 0); }
  @TLAPlusOperator(identifier = "ZLen", module = "BigInts") public static Value ZLen(Value x) { return IntValue.gen(z(x).bitLength()); }
  @TLAPlusOperator(identifier = "ZXor", module = "BigInts") public static Value ZXor(Value x, Value y) { return v(z(x).xor(z(y))); }
  @TLAPlusOperator(identifier = "ZAnd", module = "BigInts") public static Value ZAnd(Value x, Value y) { return v(z(x).and(z(y))); }
  @TLAPlusOperator(identifier = "AddMod", module = "BigInts") public static Value AddMod(Value x, Value y, Value m) {
    return v(z(x).add(z(y)).mod(z(m))); }
  @TLAPlusOperator(identifier = "SubMod", module = "BigInts") public static Value SubMod(Value x, Value y, Value m) {
    return v(z(x).subtract(z(y)).mod(z(m))); }
  @TLAPlusOperator(identifier = "MulMod", module = "BigInts") public static Value MulMod(Value x, Value y, Value m) { return v(z(x).multiply(z(y)).mod(z(m))); }
  @TLAPlusOperator(identifier = "PowMod", module = "BigInts") public static Value PowMod(Value x, Value e, Value m) { return v(z(x).modPow(z(e), z(m))); }
  @TLAPlusOperator(identifier = "InvMod", module = "BigInts") public static Value InvMod(Value x, Value m) {
    BigInteger a = z(x).mod(z(m));
    return v(a.signum() == 0 ? BigInteger.ZERO : a.modInverse(z(m))); }

  /** bytes are sequences of small integers 0..255 */
  static byte[] bytes(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) t.elems[i]).val;
    return r;
  }
  static Value tuple(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(e);
  }
  @TLAPlusOperator(identifier = "HexBytes", module = "BigInts") public static Value HexBytes(Value s) {
    String t = ((StringValue) s).val.toString();
    byte[] r = new byte[t.length() / 2];
    for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(t.substring(2 * i, 2 * i + 2), 16);
    return tuple(r);
  }
  @TLAPlusOperator(identifier = "BytesHex", module = "BigInts") public static Value BytesHex(Value s) {
    StringBuilder sb = new StringBuilder();
    for (byte x : bytes(s)) sb.append(String.format("%02x", x & 255));
    return new StringValue(sb.toString());
  }
  @TLAPlusOperator(identifier = "BE", module = "BigInts") public static Value BE(Value s) { return v(new BigInteger(1, bytes(s))); }
  @TLAPlusOperator(identifier = "ToBE", module = "BigInts") public static Value ToBE(Value x, Value n) {
    int k = z(n).intValueExact();
    byte[] r = new byte[k];
    byte[] a = z(x).toByteArray();
    for (int i = 0; i < k && i < a.length; i++) r[k - 1 - i] = a[a.length - 1 - i];
    return tuple(r);
  }
  @TLAPlusOperator(identifier = "Sha256", module = "Sha256") public static Value Sha256(Value s) throws Exception {
    return tuple(java.security.MessageDigest.getInstance("SHA-256").digest(bytes(s))); }
  @TLAPlusOperator(identifier = "Sha256Rep", module = "Sha256") public static Value Sha256Rep(Value s, Value n) throws Exception {
    java.security.MessageDigest d = java.security.MessageDigest.getInstance("SHA-256");
    byte[] b = bytes(s), big = new byte[b.length * 1024];
    for (int i = 0; i < 1024; i++) System.arraycopy(b, 0, big, i * b.length, b.length);
    long k = z(n).longValueExact();
    for (; k >= 1024; k -= 1024) d.update(big);
    for (; k > 0; k--) d.update(b);
    return tuple(d.digest()); }
  @TLAPlusOperator(identifier = "Sha256Zeros", module = "Sha256") public static Value Sha256Zeros(Value b, Value n, Value c) throws Exception {
    java.security.MessageDigest d = java.security.MessageDigest.getInstance("SHA-256");
    d.update(bytes(b));
    byte[] zeros = new byte[1 << 18];
    for (long k = z(n).longValueExact(); k > 0; k -= zeros.length) d.update(zeros, 0, (int) Math.min(k, zeros.length));
    d.update(bytes(c));
    return tuple(d.digest()); }
  @TLAPlusOperator(identifier = "ZHex", module = "BigInts") public static Value ZHex(Value x) { return new StringValue(z(x).toString(16)); }
}
