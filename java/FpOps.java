import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java bodies for the operators of Rat.tla, Mat.tla and Conform.tla.  Their
 *  meaning is the TLA+ definition given in those modules; RatLaws.tla checks
 *  the agreement with TLC. */
public final class FpOps {
  // ------------------------------------------------------------- coercions
  static RatValue r(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    return RatValue.BAD;
  }
  static RatValue[][] m(Value v) {
    if (v == null || v instanceof RatValue || v instanceof IntValue || v instanceof StringValue
        || v instanceof BoolValue || v instanceof RecordValue) return null;
    Value t = v.toTuple();
    if (t == null) return null;
    Value[] rows = ((TupleValue) t).elems;
    RatValue[][] out = new RatValue[rows.length][];
    int c = -1;
    for (int i = 0; i < rows.length; i++) {
      Value e = rows[i];
      if (e instanceof RatValue || e instanceof IntValue || e instanceof StringValue || e instanceof RecordValue) return null;
      Value rt = e.toTuple();
      if (rt == null) return null;
      Value[] es = ((TupleValue) rt).elems;
      if (c < 0) c = es.length;
      if (es.length != c) return null;
      out[i] = new RatValue[c];
      for (int j = 0; j < c; j++) out[i][j] = r(es[j]);
    }
    return out;
  }
  static Value v(RatValue[][] a) {
    if (a == null) return RatValue.BAD;
    Value[] rows = new Value[a.length];
    for (int i = 0; i < a.length; i++) rows[i] = new TupleValue(a[i].clone());
    return new TupleValue(rows);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int in(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    RatValue x = r(v);
    return x.bad() ? 0 : x.n.divide(x.d).intValue();
  }

  // ------------------------------------------------------------------- Rat
  @TLAPlusOperator(identifier = "Frac", module = "Rat") public static Value Frac(Value a, Value c) { return r(a).div(r(c)); }
  @TLAPlusOperator(identifier = "RAdd", module = "Rat") public static Value RAdd(Value a, Value c) { return r(a).add(r(c)); }
  @TLAPlusOperator(identifier = "RSub", module = "Rat") public static Value RSub(Value a, Value c) { return r(a).sub(r(c)); }
  @TLAPlusOperator(identifier = "RMul", module = "Rat") public static Value RMul(Value a, Value c) { return r(a).mul(r(c)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rat") public static Value RDiv(Value a, Value c) { return r(a).div(r(c)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Rat") public static Value RNeg(Value a) { return r(a).neg(); }
  @TLAPlusOperator(identifier = "RAbs", module = "Rat") public static Value RAbs(Value a) { return r(a).abs(); }
  @TLAPlusOperator(identifier = "RLt", module = "Rat") public static Value RLt(Value a, Value c) { return b(!r(a).bad() && !r(c).bad() && r(a).cmp(r(c)) < 0); }
  @TLAPlusOperator(identifier = "RLe", module = "Rat") public static Value RLe(Value a, Value c) { return b(!r(a).bad() && !r(c).bad() && r(a).cmp(r(c)) <= 0); }
  @TLAPlusOperator(identifier = "REq", module = "Rat") public static Value REq(Value a, Value c) { return b(!r(a).bad() && !r(c).bad() && r(a).cmp(r(c)) == 0); }
  @TLAPlusOperator(identifier = "RFloor", module = "Rat") public static Value RFloor(Value a) {
    RatValue x = r(a); if (x.bad()) return x;
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    return RatValue.of(q, BigInteger.ONE);
  }
  @TLAPlusOperator(identifier = "RInt", module = "Rat") public static Value RInt(Value a) { return IntValue.gen(in(a)); }
  @TLAPlusOperator(identifier = "IsRat", module = "Rat") public static Value IsRat(Value a) { return b((a instanceof RatValue && !((RatValue) a).bad()) || a instanceof IntValue); }
  @TLAPlusOperator(identifier = "IsNone", module = "Rat") public static Value IsNone(Value a) { return b(a instanceof StringValue && ((StringValue) a).val.equals("NONE")); }
  @TLAPlusOperator(identifier = "RPow", module = "Rat") public static Value RPow(Value a, Value k) {
    RatValue x = r(a); int e = in(k); if (x.bad()) return x;
    if (e < 0) { x = RatValue.ONE.div(x); e = -e; if (x.bad()) return x; }
    return RatValue.of(x.n.pow(e), x.d.pow(e));
  }
  // transcendental functions to about 55 significant digits
  static final MathContext MC = new MathContext(64);
  static BigDecimal bd(RatValue x) { return new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(80)); }
  static RatValue rat(BigDecimal x) {
    x = x.round(MC);
    BigInteger u = x.unscaledValue();
    return x.scale() >= 0 ? RatValue.of(u, BigInteger.TEN.pow(x.scale())) : RatValue.of(u.multiply(BigInteger.TEN.pow(-x.scale())), BigInteger.ONE);
  }
  @TLAPlusOperator(identifier = "RSqrt", module = "Rat") public static Value RSqrt(Value a) {
    RatValue x = r(a); if (x.bad() || x.signum() < 0) return RatValue.BAD;
    if (x.signum() == 0) return RatValue.ZERO;
    BigInteger sn = x.n.sqrt(), sd = x.d.sqrt();
    if (sn.multiply(sn).equals(x.n) && sd.multiply(sd).equals(x.d)) return RatValue.of(sn, sd);
    return rat(bd(x).sqrt(MC));
  }
  static final MathContext W = new MathContext(80);
  static BigDecimal exp(BigDecimal x) {
    int k = 0; BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.001")) > 0) { y = y.divide(BigDecimal.valueOf(2), W); k++; }
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) { t = t.multiply(y, W).divide(BigDecimal.valueOf(i), W); s = s.add(t, W); if (t.signum() == 0) break; }
    for (int i = 0; i < k; i++) s = s.multiply(s, W);
    return s;
  }
  static BigDecimal LN2;
  static BigDecimal lnSmall(BigDecimal x) { // x in [1/2, 2]: 2 atanh((x-1)/(x+1))
    BigDecimal z = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), W), z2 = z.multiply(z, W), t = z, s = BigDecimal.ZERO;
    for (int i = 1; i < 400; i += 2) { s = s.add(t.divide(BigDecimal.valueOf(i), W), W); t = t.multiply(z2, W); if (t.abs().compareTo(new BigDecimal("1e-85")) < 0) break; }
    return s.multiply(BigDecimal.valueOf(2), W);
  }
  static BigDecimal ln(RatValue x) {
    int e = x.n.bitLength() - x.d.bitLength();
    RatValue mant = e >= 0 ? RatValue.of(x.n, x.d.shiftLeft(e)) : RatValue.of(x.n.shiftLeft(-e), x.d);
    if (LN2 == null) LN2 = lnSmall(BigDecimal.valueOf(2));
    return lnSmall(bd(mant)).add(LN2.multiply(BigDecimal.valueOf(e), W), W);
  }
  @TLAPlusOperator(identifier = "RLn", module = "Rat") public static Value RLn(Value a) {
    RatValue x = r(a); if (x.bad() || x.signum() <= 0) return RatValue.BAD;
    return rat(ln(x));
  }
  @TLAPlusOperator(identifier = "RExp", module = "Rat") public static Value RExp(Value a) {
    RatValue x = r(a); if (x.bad()) return x;
    if (x.dbl() > 2000) return RatValue.BAD;
    if (x.dbl() < -2000) return RatValue.ZERO;
    return rat(exp(bd(x)));
  }
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
  @TLAPlusOperator(identifier = "RPi", module = "Rat") public static Value RPi() { return rat(PI); }
  static BigDecimal[] sincos(BigDecimal x) {
    BigDecimal tp = PI.multiply(BigDecimal.valueOf(2));
    BigDecimal y = x.subtract(tp.multiply(new BigDecimal(x.divide(tp, W).setScale(0, RoundingMode.HALF_EVEN).toBigInteger())), W);
    BigDecimal y2 = y.multiply(y, W), t = BigDecimal.ONE, c = BigDecimal.ZERO, s = BigDecimal.ZERO;
    for (int i = 0; i < 120; i++) { // t = y^i / i!
      BigDecimal u = (i / 2) % 2 == 0 ? t : t.negate();
      if (i % 2 == 0) c = c.add(u, W); else s = s.add(u, W);
      t = t.multiply(y, W).divide(BigDecimal.valueOf(i + 1), W);
    }
    return new BigDecimal[] { s, c };
  }
  @TLAPlusOperator(identifier = "RSin", module = "Rat") public static Value RSin(Value a) { RatValue x = r(a); return x.bad() ? x : rat(sincos(bd(x))[0]); }
  @TLAPlusOperator(identifier = "RCos", module = "Rat") public static Value RCos(Value a) { RatValue x = r(a); return x.bad() ? x : rat(sincos(bd(x))[1]); }
  @TLAPlusOperator(identifier = "RErf", module = "Rat") public static Value RErf(Value a) {
    RatValue q = r(a); if (q.bad()) return q;
    BigDecimal x = bd(q);
    if (x.abs().compareTo(BigDecimal.valueOf(8)) > 0) return RatValue.of(x.signum());
    MathContext h = new MathContext(120);
    BigDecimal t = x, s = BigDecimal.ZERO, x2 = x.multiply(x, h);
    for (int i = 0; i < 600; i++) {
      s = s.add(t.divide(BigDecimal.valueOf(2 * i + 1), h), h);
      t = t.multiply(x2, h).divide(BigDecimal.valueOf(-(i + 1)), h);
    }
    return rat(s.multiply(BigDecimal.valueOf(2), h).divide(PI.sqrt(h), h));
  }

  // ------------------------------------------------------------------- Mat
  static RatValue[][] mul(RatValue[][] A, RatValue[][] B) {
    if (A == null || B == null || A.length == 0 || B.length == 0 || A[0].length != B.length) return null;
    int n = A.length, k = B.length, p = B[0].length;
    RatValue[][] C = new RatValue[n][p];
    for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) {
      RatValue s = RatValue.ZERO;
      for (int l = 0; l < k; l++) s = s.add(A[i][l].mul(B[l][j]));
      C[i][j] = s;
    }
    return C;
  }
  static RatValue[][] add(RatValue[][] A, RatValue[][] B, boolean minus) {
    if (A == null || B == null || A.length != B.length || A.length == 0 || A[0].length != B[0].length) return null;
    RatValue[][] C = new RatValue[A.length][A[0].length];
    for (int i = 0; i < A.length; i++) for (int j = 0; j < A[0].length; j++) C[i][j] = minus ? A[i][j].sub(B[i][j]) : A[i][j].add(B[i][j]);
    return C;
  }
  static RatValue[][] tr(RatValue[][] A) {
    if (A == null || A.length == 0) return null;
    RatValue[][] C = new RatValue[A[0].length][A.length];
    for (int i = 0; i < A.length; i++) for (int j = 0; j < A[0].length; j++) C[j][i] = A[i][j];
    return C;
  }
  static RatValue[][] eye(int n) {
    RatValue[][] I = new RatValue[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) I[i][j] = i == j ? RatValue.ONE : RatValue.ZERO;
    return I;
  }
  static boolean anyBad(RatValue[][] A) { for (RatValue[] x : A) for (RatValue y : x) if (y.bad()) return true; return false; }
  static RatValue[][] inv(RatValue[][] A) {
    if (A == null || A.length == 0 || A.length != A[0].length || anyBad(A)) return null;
    int n = A.length;
    RatValue[][] M = new RatValue[n][], I = eye(n);
    for (int i = 0; i < n; i++) M[i] = A[i].clone();
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int i = c; i < n; i++) if (M[i][c].signum() != 0) { p = i; break; }
      if (p < 0) return null;
      RatValue[] t = M[p]; M[p] = M[c]; M[c] = t; t = I[p]; I[p] = I[c]; I[c] = t;
      RatValue piv = M[c][c];
      for (int j = 0; j < n; j++) { M[c][j] = M[c][j].div(piv); I[c][j] = I[c][j].div(piv); }
      for (int i = 0; i < n; i++) if (i != c && M[i][c].signum() != 0) {
        RatValue f = M[i][c];
        for (int j = 0; j < n; j++) { M[i][j] = M[i][j].sub(f.mul(M[c][j])); I[i][j] = I[i][j].sub(f.mul(I[c][j])); }
      }
    }
    return I;
  }
  static RatValue det(RatValue[][] A) {
    if (A == null || A.length == 0 || A.length != A[0].length || anyBad(A)) return RatValue.BAD;
    int n = A.length; RatValue[][] M = new RatValue[n][];
    for (int i = 0; i < n; i++) M[i] = A[i].clone();
    RatValue dd = RatValue.ONE;
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int i = c; i < n; i++) if (M[i][c].signum() != 0) { p = i; break; }
      if (p < 0) return RatValue.ZERO;
      if (p != c) { RatValue[] t = M[p]; M[p] = M[c]; M[c] = t; dd = dd.neg(); }
      dd = dd.mul(M[c][c]);
      for (int i = c + 1; i < n; i++) {
        RatValue f = M[i][c].div(M[c][c]);
        for (int j = c; j < n; j++) M[i][j] = M[i][j].sub(f.mul(M[c][j]));
      }
    }
    return dd;
  }
  @TLAPlusOperator(identifier = "MMul", module = "Mat") public static Value MMul(Value a, Value c) { return v(mul(m(a), m(c))); }
  @TLAPlusOperator(identifier = "MAdd", module = "Mat") public static Value MAdd(Value a, Value c) { return v(add(m(a), m(c), false)); }
  @TLAPlusOperator(identifier = "MSub", module = "Mat") public static Value MSub(Value a, Value c) { return v(add(m(a), m(c), true)); }
  @TLAPlusOperator(identifier = "MT", module = "Mat") public static Value MT(Value a) { return v(tr(m(a))); }
  @TLAPlusOperator(identifier = "MInv", module = "Mat") public static Value MInv(Value a) { return v(inv(m(a))); }
  @TLAPlusOperator(identifier = "MDet", module = "Mat") public static Value MDet(Value a) { return det(m(a)); }
  @TLAPlusOperator(identifier = "Eye", module = "Mat") public static Value Eye(Value n) { return v(eye(in(n))); }
  @TLAPlusOperator(identifier = "Zeros", module = "Mat") public static Value Zeros(Value n, Value c) {
    RatValue[][] Z = new RatValue[in(n)][in(c)];
    for (RatValue[] z : Z) Arrays.fill(z, RatValue.ZERO);
    return v(Z);
  }
  @TLAPlusOperator(identifier = "MScale", module = "Mat") public static Value MScale(Value k, Value a) {
    RatValue[][] A = m(a); RatValue s = r(k);
    if (A == null) return RatValue.BAD;
    for (RatValue[] row : A) for (int j = 0; j < row.length; j++) row[j] = row[j].mul(s);
    return v(A);
  }
  @TLAPlusOperator(identifier = "MHad", module = "Mat") public static Value MHad(Value a, Value c) {
    RatValue[][] A = m(a), B = m(c);
    if (A == null || B == null || A.length != B.length || A.length == 0 || A[0].length != B[0].length) return RatValue.BAD;
    for (int i = 0; i < A.length; i++) for (int j = 0; j < A[0].length; j++) A[i][j] = A[i][j].mul(B[i][j]);
    return v(A);
  }
  @TLAPlusOperator(identifier = "HCat", module = "Mat") public static Value HCat(Value a, Value c) {
    RatValue[][] A = m(a), B = m(c);
    if (A == null || B == null || A.length != B.length) return RatValue.BAD;
    RatValue[][] C = new RatValue[A.length][];
    for (int i = 0; i < A.length; i++) { C[i] = Arrays.copyOf(A[i], A[i].length + B[i].length); System.arraycopy(B[i], 0, C[i], A[i].length, B[i].length); }
    return v(C);
  }
  @TLAPlusOperator(identifier = "SubMat", module = "Mat") public static Value SubMat(Value a, Value r0, Value r1, Value c0, Value c1) {
    RatValue[][] A = m(a); int x0 = in(r0), x1 = in(r1), y0 = in(c0), y1 = in(c1);
    if (A == null || x0 < 1 || y0 < 1 || x1 > A.length || A.length == 0 || y1 > A[0].length) return RatValue.BAD;
    RatValue[][] C = new RatValue[x1 - x0 + 1][];
    for (int i = x0; i <= x1; i++) C[i - x0] = Arrays.copyOfRange(A[i - 1], y0 - 1, y1);
    return v(C);
  }
  /** upper triangular U with U' U = A and a positive diagonal; BAD when A is not positive definite */
  @TLAPlusOperator(identifier = "MChol", module = "Mat") public static Value MChol(Value a) {
    RatValue[][] A = m(a);
    if (A == null || A.length == 0 || A.length != A[0].length || anyBad(A)) return RatValue.BAD;
    int n = A.length; RatValue[][] U = new RatValue[n][n];
    for (int i = 0; i < n; i++) Arrays.fill(U[i], RatValue.ZERO);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
      RatValue s = A[i][j];
      for (int k = 0; k < i; k++) s = s.sub(U[k][i].mul(U[k][j]));
      if (i == j) { if (s.signum() <= 0) return RatValue.BAD; U[i][i] = (RatValue) RSqrt(s); }
      else { RatValue q = s.div(U[i][i]); U[i][j] = q.signum() == 0 ? q : q.n.bitLength() + q.d.bitLength() > 400 ? rat(bd(q)) : q; }
    }
    return v(U);
  }
  /** smallest pivot test: symmetric A is positive semidefinite (with slack eps: A + eps I) */
  @TLAPlusOperator(identifier = "IsPSD", module = "Mat") public static Value IsPSD(Value a, Value eps) {
    RatValue[][] A = m(a); RatValue e = r(eps);
    if (A == null || A.length == 0 || A.length != A[0].length || anyBad(A) || e.bad()) return b(false);
    int n = A.length; RatValue[][] M = new RatValue[n][];
    for (int i = 0; i < n; i++) { M[i] = A[i].clone(); M[i][i] = M[i][i].add(e); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { RatValue h = M[i][j].add(M[j][i]).div(RatValue.of(2)); M[i][j] = h; M[j][i] = h; }
    for (int c = 0; c < n; c++) {
      if (M[c][c].signum() < 0) return b(false);
      if (M[c][c].signum() == 0) { for (int j = c; j < n; j++) if (M[c][j].signum() != 0) return b(false); continue; }
      for (int i = c + 1; i < n; i++) { RatValue f = M[i][c].div(M[c][c]); for (int j = c; j < n; j++) M[i][j] = M[i][j].sub(f.mul(M[c][j])); }
    }
    return b(true);
  }
  /** matrix exponential: scaling and squaring of the Taylor series, about 60 digits */
  @TLAPlusOperator(identifier = "MExp", module = "Mat") public static Value MExp(Value a) {
    RatValue[][] A = m(a);
    if (A == null || A.length == 0 || A.length != A[0].length || anyBad(A)) return RatValue.BAD;
    int n = A.length;
    double mx = 0; for (RatValue[] row : A) for (RatValue x : row) mx = Math.max(mx, Math.abs(x.dbl()));
    int k = 0; while (mx * n > 0.01) { mx /= 2; k++; }
    RatValue sc = RatValue.of(BigInteger.ONE, BigInteger.ONE.shiftLeft(k));
    for (RatValue[] row : A) for (int j = 0; j < n; j++) row[j] = round(row[j].mul(sc));
    RatValue[][] S = eye(n), T = eye(n);
    for (int i = 1; i < 40; i++) {
      T = mul(T, A); RatValue f = RatValue.ONE.div(RatValue.of(i));
      for (RatValue[] row : T) for (int j = 0; j < n; j++) row[j] = round(row[j].mul(f));
      S = add(S, T, false);
    }
    for (int i = 0; i < k; i++) { S = mul(S, S); for (RatValue[] row : S) for (int j = 0; j < n; j++) row[j] = round(row[j]); }
    return v(S);
  }
  /** to an absolute precision of 2^-320 (only used inside MExp) */
  static RatValue round(RatValue x) {
    if (x.d.bitLength() < 330) return x;
    return RatValue.of(x.n.shiftLeft(320).divide(x.d), BigInteger.ONE.shiftLeft(320));
  }
  @TLAPlusOperator(identifier = "MMaxAbs", module = "Mat") public static Value MMaxAbs(Value a) {
    RatValue[][] A = m(a); if (A == null) return RatValue.BAD;
    RatValue s = RatValue.ZERO;
    for (RatValue[] row : A) for (RatValue x : row) { if (x.bad()) return x; if (x.abs().cmp(s) > 0) s = x.abs(); }
    return s;
  }
  @TLAPlusOperator(identifier = "Rows", module = "Mat") public static Value Rows(Value a) { RatValue[][] A = m(a); return IntValue.gen(A == null ? 0 : A.length); }
  @TLAPlusOperator(identifier = "Cols", module = "Mat") public static Value Cols(Value a) { RatValue[][] A = m(a); return IntValue.gen(A == null || A.length == 0 ? 0 : A[0].length); }

  // --------------------------------------------------------------- Conform
  static RatValue maxAbs(Value e) {
    if (e instanceof RatValue || e instanceof IntValue) return r(e).abs();
    if (e instanceof StringValue || e instanceof BoolValue || e instanceof RecordValue) return RatValue.ZERO;
    Value t = e.toTuple(); RatValue s = RatValue.ZERO;
    if (t != null) for (Value x : ((TupleValue) t).elems) { RatValue q = maxAbs(x); if (!q.bad() && q.cmp(s) > 0) s = q; }
    return s;
  }
  /** structural closeness; numbers compare within tol, everything else exactly */
  static boolean close(Value e, Value o, RatValue tol) {
    boolean en = e instanceof RatValue || e instanceof IntValue, on = o instanceof RatValue || o instanceof IntValue;
    if (en || on) {
      if (!(en && on)) return false;
      RatValue x = r(e), y = r(o);
      if (x.bad() || y.bad()) return false;
      return x.sub(y).abs().cmp(tol) <= 0;
    }
    if (e instanceof StringValue || o instanceof StringValue) return e instanceof StringValue && o instanceof StringValue && ((StringValue) e).val.equals(((StringValue) o).val);
    if (e instanceof BoolValue || o instanceof BoolValue) return e instanceof BoolValue && o instanceof BoolValue && ((BoolValue) e).val == ((BoolValue) o).val;
    if (e instanceof RecordValue || o instanceof RecordValue) {
      if (!(e instanceof RecordValue && o instanceof RecordValue)) return false;
      RecordValue a = (RecordValue) e, c = (RecordValue) o;
      for (int i = 0; i < a.names.length; i++) { Value w = field(c, a.names[i]); if (w == null || !close(a.values[i], w, tol)) return false; }
      return true;
    }
    Value te = e.toTuple(), to = o.toTuple();
    if (te == null || to == null) return false;
    Value[] a = ((TupleValue) te).elems, c = ((TupleValue) to).elems;
    if (a.length != c.length) return false;
    for (int i = 0; i < a.length; i++) if (!close(a[i], c[i], tol)) return false;
    return true;
  }
  static Value field(RecordValue rv, UniqueString name) {
    for (int i = 0; i < rv.names.length; i++) if (rv.names[i].equals(name)) return rv.values[i];
    return null;
  }
  static RatValue tol(Value e, Value o, Value rel, Value abs) {
    return r(rel).mul(maxAbs(e)).add(r(abs));
  }
  @TLAPlusOperator(identifier = "Close", module = "Conform") public static Value Close(Value e, Value o, Value rel, Value abs) {
    return b(close(e, o, tol(e, o, rel, abs)));
  }
  /** names of the fields of record e that o lacks or does not match */
  @TLAPlusOperator(identifier = "Diff", module = "Conform") public static Value Diff(Value e, Value o, Value rel, Value abs) {
    List<Value> out = new ArrayList<>();
    Value er = e.toRcd(), or = o.toRcd();
    if (er == null || or == null) return new SetEnumValue(new Value[] { new StringValue("not-a-record") }, true);
    RecordValue a = (RecordValue) er, c = (RecordValue) or;
    for (int i = 0; i < a.names.length; i++) {
      Value w = field(c, a.names[i]);
      if (w == null || !close(a.values[i], w, tol(a.values[i], w, rel, abs))) out.add(new StringValue(a.names[i]));
    }
    Value s = new SetEnumValue(out.toArray(new Value[0]), false);
    s.normalize();
    return s;
  }
  @TLAPlusOperator(identifier = "Has", module = "Conform") public static Value Has(Value rec, Value name) {
    Value a = rec.toRcd(); if (a == null) return b(false);
    return b(field((RecordValue) a, ((StringValue) name).val) != null);
  }
  @TLAPlusOperator(identifier = "Opt", module = "Conform") public static Value Opt(Value rec, Value name, Value dflt) {
    Value a = rec.toRcd(); if (a == null) return dflt;
    Value w = field((RecordValue) a, ((StringValue) name).val);
    return w == null ? dflt : w;
  }
  // trace input: one JSON value per line; "#n/d" strings are exact rationals
  static final Map<String, Value> cache = new HashMap<>();
  @TLAPlusOperator(identifier = "ReadTrace", module = "Conform") public static synchronized Value ReadTrace(Value file) throws IOException {
    String f = ((StringValue) file).val.toString();
    Value c = cache.get(f);
    if (c != null) return c;
    List<Value> out = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new InputStreamReader(new FileInputStream(f), StandardCharsets.UTF_8))) {
      for (String line; (line = br.readLine()) != null;) if (!line.trim().isEmpty()) out.add(new P(line).value());
    }
    c = new TupleValue(out.toArray(new Value[0]));
    cache.put(f, c);
    return c;
  }
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value value() {
      ws();
      char c = s.charAt(i);
      if (c == '{') {
        i++; TreeMap<String, Value> mp = new TreeMap<>(); ws();
        if (s.charAt(i) == '}') { i++; return RecordValue.EmptyRcd; }
        while (true) { ws(); String k = str(); ws(); i++; mp.put(k, value()); ws(); if (s.charAt(i++) == '}') break; }
        UniqueString[] ns = new UniqueString[mp.size()]; Value[] vs = new Value[mp.size()]; int j = 0;
        for (Map.Entry<String, Value> e : mp.entrySet()) { ns[j] = UniqueString.of(e.getKey()); vs[j++] = e.getValue(); }
        RecordValue rv = new RecordValue(ns, vs, false); rv.normalize(); return rv;
      }
      if (c == '[') {
        i++; List<Value> l = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return TupleValue.EmptyTuple; }
        while (true) { l.add(value()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(l.toArray(new Value[0]));
      }
      if (c == '"') {
        String t = str();
        if (t.startsWith("#")) return num(t.substring(1));
        return new StringValue(t);
      }
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      if (s.startsWith("null", i)) { i += 4; return new StringValue("NONE"); }
      int j = i; while (i < s.length() && "-0123456789".indexOf(s.charAt(i)) >= 0) i++;
      return IntValue.gen(Integer.parseInt(s.substring(j, i)));
    }
    String str() {
      StringBuilder sb = new StringBuilder(); i++;
      for (char c; (c = s.charAt(i++)) != '"';) {
        if (c != '\\') { sb.append(c); continue; }
        c = s.charAt(i++);
        switch (c) { case 'n': sb.append('\n'); break; case 't': sb.append('\t'); break;
          case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break; default: sb.append(c); }
      }
      return sb.toString();
    }
    static Value num(String t) {
      if (t.equals("nan") || t.equals("inf") || t.equals("-inf")) return RatValue.BAD;
      int k = t.indexOf('/');
      if (k < 0) return RatValue.of(new BigInteger(t), BigInteger.ONE);
      return RatValue.of(new BigInteger(t.substring(0, k)), new BigInteger(t.substring(k + 1)));
    }
  }
}
