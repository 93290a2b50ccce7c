import java.math.BigInteger;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.*;

/** An exact rational number as a TLC value (n/d, normalised, d > 0).
 *  n == null is the distinguished value BAD: "no such number" (division by
 *  zero, a shape mismatch, a NaN or an infinity coming from the code). */
public final class RatValue extends Value {
  private static final long serialVersionUID = 1L;
  public final BigInteger n, d;
  public static final RatValue BAD = new RatValue(null, BigInteger.ONE, true);
  public static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
  public static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE, true);
  static final int LIMIT = 6000, KEEP = 640;

  private RatValue(BigInteger n, BigInteger d, boolean raw) { this.n = n; this.d = d; }

  public static RatValue of(long v) { return new RatValue(BigInteger.valueOf(v), BigInteger.ONE, true); }

  public static RatValue of(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return BAD;
    if (n.signum() == 0) return ZERO;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    // cheap common power of two first (most numbers come from doubles)
    int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
    if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
    if (d.bitLength() > 1 && d.bitCount() != 1) {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    if (n.bitLength() + d.bitLength() > LIMIT) {
      // keep KEEP significant bits: relative error < 2^-KEEP
      int shift = KEEP - (n.bitLength() - d.bitLength());
      BigInteger q, den;
      if (shift >= 0) { q = n.shiftLeft(shift).divide(d); den = BigInteger.ONE.shiftLeft(shift); }
      else { q = n.divide(d.shiftLeft(-shift)).shiftLeft(-shift); den = BigInteger.ONE; }
      int t = q.signum() == 0 ? 0 : Math.min(q.getLowestSetBit(), den.getLowestSetBit());
      return new RatValue(q.shiftRight(t), den.shiftRight(t), true);
    }
    return new RatValue(n, d, true);
  }

  public boolean bad() { return n == null; }
  public RatValue add(RatValue o) {
    if (bad() || o.bad()) return BAD;
    if (d.equals(o.d)) return of(n.add(o.n), d);
    return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
  }
  public RatValue neg() { return bad() ? BAD : new RatValue(n.negate(), d, true); }
  public RatValue sub(RatValue o) { return add(o.neg()); }
  public RatValue mul(RatValue o) {
    if (bad() || o.bad()) return BAD;
    if (n.signum() == 0 || o.n.signum() == 0) return ZERO;
    return of(n.multiply(o.n), d.multiply(o.d));
  }
  public RatValue div(RatValue o) {
    if (bad() || o.bad() || o.n.signum() == 0) return BAD;
    return of(n.multiply(o.d), d.multiply(o.n));
  }
  public RatValue abs() { return bad() ? BAD : new RatValue(n.abs(), d, true); }
  public int cmp(RatValue o) {
    if (bad() || o.bad()) return bad() ? (o.bad() ? 0 : -1) : 1;
    if (d.equals(o.d)) return n.compareTo(o.n);
    return n.multiply(o.d).compareTo(o.n.multiply(d));
  }
  public int signum() { return bad() ? 0 : n.signum(); }
  public double dbl() {
    if (bad()) return Double.NaN;
    return new java.math.BigDecimal(n).divide(new java.math.BigDecimal(d), new java.math.MathContext(20)).doubleValue();
  }

  // ---- the Value contract -------------------------------------------------
  @Override public byte getKind() { return USERVALUE; }
  @Override public String getKindString() { return "rational"; }
  @Override public int compareTo(Object o) {
    if (o instanceof RatValue) return cmp((RatValue) o);
    if (o instanceof IntValue) return cmp(of(((IntValue) o).val));
    return -1;
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RatValue || o instanceof IntValue) return compareTo(o) == 0;
    return false;
  }
  @Override public boolean member(Value v) { return false; }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept ex) { return ex.idx < ex.path.length ? BAD : ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { Value v = this; for (ValueExcept e : exs) v = v.takeExcept(e); return v; }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public long fingerPrint(long fp) { fp = FP64.Extend(fp, USERVALUE); return FP64.Extend(fp, text()); }
  @Override public IValue permute(IMVPerm perm) { return this; }
  public String text() { return bad() ? "BAD" : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    if (bad()) return sb.append("BAD");
    String t = text();
    return sb.append(t.length() <= 24 ? t : String.format("%.12g", dbl()));
  }
}
