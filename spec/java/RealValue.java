import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

/** A real number as a TLC value: arbitrary precision decimal, or NaN / +-infinity. */
public final class RealValue extends Value {
  static final MathContext MC = new MathContext(110, RoundingMode.HALF_EVEN);
  static final MathContext MCD = new MathContext(60, RoundingMode.HALF_EVEN);
  final BigDecimal v;      // null: not finite
  final double special;    // when v == null

  RealValue(BigDecimal v) { this.v = v; this.special = 0; }
  private RealValue(double s) { this.v = null; this.special = s; }
  static final RealValue NAN = new RealValue(Double.NaN);
  static final RealValue PINF = new RealValue(Double.POSITIVE_INFINITY);
  static final RealValue NINF = new RealValue(Double.NEGATIVE_INFINITY);
  static final RealValue ZERO = new RealValue(BigDecimal.ZERO);

  static RealValue of(double d) {
    if (Double.isNaN(d)) return NAN;
    if (Double.isInfinite(d)) return d > 0 ? PINF : NINF;
    if (d == 0) return ZERO;
    return new RealValue(new BigDecimal(d));
  }
  static RealValue conv(IValue x) {
    if (x instanceof RealValue) return (RealValue) x;
    if (x instanceof IntValue) return new RealValue(BigDecimal.valueOf(((IntValue) x).val));
    throw new EvalException(2154, "ExactReal: not a number: " + x.toString());
  }
  boolean fin() { return v != null; }
  double dbl() { return v == null ? special : v.doubleValue(); }

  public byte getKind() { return REALVALUE; }
  @Override public String getKindString() { return "a real"; }
  public int compareTo(Object o) {
    if (o instanceof RealValue || o instanceof IntValue) {
      RealValue r = conv((Value) o);
      if (v != null && r.v != null) return v.compareTo(r.v);
      return Double.compare(dbl(), r.dbl());
    }
    if (o instanceof ModelValue) return 1;
    throw new EvalException(2154, "Attempted to compare real " + this + " with " + o);
  }
  public boolean equals(Object o) {
    if (o instanceof RealValue || o instanceof IntValue) return compareTo(o) == 0;
    if (o instanceof ModelValue) return false;
    throw new EvalException(2154, "Attempted to check equality of real " + this + " with " + o);
  }
  public boolean member(Value e) { throw new EvalException(2154, "member of a real"); }
  public boolean isFinite() { throw new EvalException(2154, "finiteness of a real"); }
  public Value takeExcept(ValueExcept e) { if (e.idx < e.path.length) throw new EvalException(2154, "EXCEPT on a real"); return e.value; }
  public Value takeExcept(ValueExcept[] e) { if (e.length != 0) throw new EvalException(2154, "EXCEPT on a real"); return this; }
  public int size() { throw new EvalException(2154, "size of a real"); }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, (byte) REALVALUE);
    double d = dbl(); if (d == 0) d = 0.0;
    fp = FP64.Extend(fp, Double.doubleToLongBits(d));
    if (v != null) fp = FP64.Extend(fp, v.signum() == 0 ? 0 : v.stripTrailingZeros().hashCode());
    return fp;
  }
  public IValue permute(IMVPerm p) { return this; }
  public void write(IValueOutputStream vos) throws IOException { throw new IOException("reals are not written to disk"); }
  public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    if (v == null) return sb.append(special);
    if (v.signum() == 0) return sb.append("0.0");
    double d = v.doubleValue();
    return sb.append(Double.toString(d));
  }
}
