package tlc2.overrides;

import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.value.impl.ModelValue;
import util.Assert;

/** An unbounded integer as a TLC value.  TLC's own integers are 32 bits wide; BigInts.tla
 *  declares the operators whose results are these values. */
public final class BigVal extends Value {
  public final BigInteger v;
  public BigVal(BigInteger v) { this.v = v; }

  @Override public byte getKind() { return USERVALUE; }
  @Override public String getKindString() { return "a big integer"; }

  @Override public int compareTo(Object o) {
    if (o instanceof BigVal) return v.compareTo(((BigVal) o).v);
    if (o instanceof ModelValue) return 1;
    throw new RuntimeException("Attempted to compare the big integer " + this + " with " + o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof BigVal) return v.equals(((BigVal) o).v);
    if (o instanceof ModelValue) return ((ModelValue) o).modelValueEquals(this);
    throw new RuntimeException("Attempted to check equality of the big integer " + this + " with " + o);
  }
  @Override public boolean member(Value e) { Assert.fail("not a set: " + this, getSource()); return false; }
  @Override public boolean isFinite() { Assert.fail("not a set: " + this, getSource()); return false; }
  @Override public Value takeExcept(ValueExcept ex) { Assert.fail("not a function: " + this, getSource()); return null; }
  @Override public Value takeExcept(ValueExcept[] exs) { Assert.fail("not a function: " + this, getSource()); return null; }
  @Override public int size() { Assert.fail("not a set: " + this, getSource()); return 0; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  public boolean assignable(Value val) { return equals(val); }
  @Override public long fingerPrint(long fp) {
    byte[] b = v.toByteArray();
    fp = FP64.Extend(fp, (byte) 99);
    fp = FP64.Extend(fp, b.length);
    for (byte x : b) fp = FP64.Extend(fp, x);
    return fp;
  }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(v.signum() < 0 ? "-0x" : "0x").append(v.abs().toString(16));
  }
}
