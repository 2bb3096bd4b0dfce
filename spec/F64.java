// TLC module override for F64.tla: IEEE-754 doubles as decimal strings.
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class F64 {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    return parse(((StringValue) v).val.toString());
  }
  static double parse(String s) {
    switch (s) {
      case "nan": case "-nan": case "NaN": return Double.NaN;
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }
  static Value s(double x) { return new StringValue(Double.toString(x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = d((Value) t.elems[i]);
    return r;
  }
  static Value vec(double[] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = s(x[i]);
    return new TupleValue(r);
  }
  static double[][] mat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[][] r = new double[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec((Value) t.elems[i]);
    return r;
  }
  static Value mat(double[][] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = vec(x[i]);
    return new TupleValue(r);
  }
  static boolean close(double a, double b, double tol, double fl) {
    if (Double.isNaN(a) || Double.isNaN(b)) return Double.isNaN(a) && Double.isNaN(b);
    if (a == b) return true;
    if (Double.isInfinite(a) || Double.isInfinite(b)) return false;
    return Math.abs(a - b) <= tol * Math.max(fl, Math.max(Math.abs(a), Math.abs(b)));
  }
  public static Value FAdd(Value a, Value b) { return s(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return s(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return s(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return s(d(a) / d(b)); }
  public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value FLog(Value a) { return s(Math.log(d(a))); }
  public static Value FExp(Value a) { return s(Math.exp(d(a))); }
  public static Value FPow(Value a, Value b) { return s(Math.pow(d(a), d(b))); }
  public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value FFloor(Value a) { return s(Math.floor(d(a))); }
  public static Value FCeil(Value a) { return s(Math.ceil(d(a))); }
  public static Value FNeg(Value a) { return s(-d(a)); }
  public static Value FMin(Value a, Value b) { return s(Math.min(d(a), d(b))); }
  public static Value FMax(Value a, Value b) { return s(Math.max(d(a), d(b))); }
  public static Value FFromInt(Value n) { return s(((IntValue) n).val); }
  public static Value FToInt(Value a) {
    double x = d(a);
    if (!(Math.abs(x) < 2147483647.0)) throw new RuntimeException("FToInt out of range: " + x);
    return IntValue.gen((int) x);
  }
  public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FClose(Value a, Value b, Value tol, Value fl) { return b(close(d(a), d(b), d(tol), d(fl))); }

  // sorting and order statistics: evaluated definitions of F64.tla, overridden for speed only
  static Integer[] perm(final double[] x) {
    Integer[] ix = new Integer[x.length];
    for (int i = 0; i < ix.length; i++) ix[i] = i;
    java.util.Arrays.sort(ix, (p, q) -> x[p] < x[q] ? -1 : x[p] > x[q] ? 1 : 0);
    return ix;
  }
  static void nonan(double[] x) { for (double t : x) if (Double.isNaN(t)) throw new RuntimeException("F64: NaN cannot be ranked"); }
  public static Value SortPerm(Value v) {
    double[] x = vec(v); nonan(x); Integer[] ix = perm(x); Value[] r = new Value[ix.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(r);
  }
  public static Value NthSmallest(Value v, Value k) {
    double[] x = vec(v); nonan(x); Integer[] ix = perm(x);
    return (Value) ((TupleValue) v.toTuple()).elems[ix[((IntValue) k).val - 1]];
  }
  public static Value CountLess(Value v, Value r) { double t = d(r); int n = 0; for (double x : vec(v)) if (x < t) n++; return IntValue.gen(n); }

  public static Value SameOrder(Value u, Value v) {
    double[] x = vec(u), y = vec(v); if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (Double.isNaN(x[i]) || Double.isNaN(y[i])) return b(false);
    Integer[] p = perm(x);
    for (int i = 0; i + 1 < p.length; i++) {
      double a = x[p[i]], c = x[p[i + 1]], d = y[p[i]], e = y[p[i + 1]];
      if (a < c ? !(d < e) : d != e) return b(false);
    }
    return b(true);
  }

  static void same(int a, int b) { if (a != b) throw new RuntimeException("F64: dimension mismatch " + a + " / " + b); }
  public static Value VAdd(Value u, Value v) { double[] x = vec(u), y = vec(v); same(x.length, y.length); for (int i = 0; i < x.length; i++) x[i] += y[i]; return vec(x); }
  public static Value VSub(Value u, Value v) { double[] x = vec(u), y = vec(v); same(x.length, y.length); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return vec(x); }
  public static Value VScale(Value a, Value v) { double k = d(a); double[] x = vec(v); for (int i = 0; i < x.length; i++) x[i] *= k; return vec(x); }
  public static Value VDot(Value u, Value v) { double[] x = vec(u), y = vec(v); same(x.length, y.length); double r = 0; for (int i = 0; i < x.length; i++) r += x[i] * y[i]; return s(r); }
  public static Value VNorm(Value u) { double r = 0; for (double t : vec(u)) r += t * t; return s(Math.sqrt(r)); }
  public static Value VMulEl(Value u, Value v) { double[] x = vec(u), y = vec(v); same(x.length, y.length); for (int i = 0; i < x.length; i++) x[i] *= y[i]; return vec(x); }
  public static Value VDivEl(Value u, Value v) { double[] x = vec(u), y = vec(v); same(x.length, y.length); for (int i = 0; i < x.length; i++) x[i] /= y[i]; return vec(x); }
  public static Value VSqrtEl(Value u) { double[] x = vec(u); for (int i = 0; i < x.length; i++) x[i] = Math.sqrt(x[i]); return vec(x); }
  public static Value VSum(Value u) { double r = 0; for (double t : vec(u)) r += t; return s(r); }
  public static Value VMaxAbs(Value u) { double r = 0; for (double t : vec(u)) r = Math.max(r, Math.abs(t)); return s(r); }
  public static Value MVMul(Value m, Value v) {
    double[][] a = mat(m); double[] x = vec(v); double[] r = new double[a.length];
    for (int i = 0; i < a.length; i++) { same(a[i].length, x.length); for (int j = 0; j < x.length; j++) r[i] += a[i][j] * x[j]; }
    return vec(r);
  }
  public static Value MMul(Value m, Value n) {
    double[][] a = mat(m), c = mat(n); double[][] r = new double[a.length][c[0].length];
    for (int i = 0; i < a.length; i++) { same(a[i].length, c.length); for (int j = 0; j < c[0].length; j++) for (int k = 0; k < c.length; k++) r[i][j] += a[i][k] * c[k][j]; }
    return mat(r);
  }
  public static Value MTrans(Value m) {
    double[][] a = mat(m); double[][] r = new double[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[j][i] = a[i][j];
    return mat(r);
  }
  public static Value MAdd(Value m, Value n) { double[][] a = mat(m), c = mat(n); same(a.length, c.length); for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] += c[i][j]; return mat(a); }
  public static Value MScale(Value k, Value m) { double z = d(k); double[][] a = mat(m); for (double[] r : a) for (int j = 0; j < r.length; j++) r[j] *= z; return mat(a); }
  public static Value MOuter(Value u, Value v) { double[] x = vec(u), y = vec(v); double[][] r = new double[x.length][y.length]; for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i][j] = x[i] * y[j]; return mat(r); }
  public static Value VClose(Value u, Value v, Value tol, Value fl) {
    double[] x = vec(u), y = vec(v); if (x.length != y.length) return b(false);
    double f = d(fl), t = d(tol);
    for (int i = 0; i < x.length; i++) { if (Math.abs(x[i]) <= 1.7e308) f = Math.max(f, Math.abs(x[i])); }
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], t, f)) return b(false);
    return b(true);
  }
  public static Value MClose(Value m, Value n, Value tol, Value fl) {
    double[][] a = mat(m), c = mat(n); if (a.length != c.length) return b(false);
    double f = d(fl), t = d(tol);
    for (double[] r : a) for (double x : r) if (Math.abs(x) <= 1.7e308) f = Math.max(f, Math.abs(x));
    for (int i = 0; i < a.length; i++) { if (a[i].length != c[i].length) return b(false); for (int j = 0; j < a[i].length; j++) if (!close(a[i][j], c[i][j], t, f)) return b(false); }
    return b(true);
  }

  public static Value MSub(Value m, Value n) { double[][] a = mat(m), c = mat(n); same(a.length, c.length); for (int i = 0; i < a.length; i++) { same(a[i].length, c[i].length); for (int j = 0; j < a[i].length; j++) a[i][j] -= c[i][j]; } return mat(a); }
  public static Value MMulEl(Value m, Value n) { double[][] a = mat(m), c = mat(n); same(a.length, c.length); for (int i = 0; i < a.length; i++) { same(a[i].length, c[i].length); for (int j = 0; j < a[i].length; j++) a[i][j] *= c[i][j]; } return mat(a); }
  public static Value MRowScale(Value w, Value m) { double[] x = vec(w); double[][] a = mat(m); same(a.length, x.length); for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] *= x[i]; return mat(a); }
  public static Value MDiag(Value v) { double[] x = vec(v); double[][] a = new double[x.length][x.length]; for (int i = 0; i < x.length; i++) a[i][i] = x[i]; return mat(a); }
  public static Value VMax(Value u) { double r = Double.NEGATIVE_INFINITY; for (double t : vec(u)) r = Math.max(r, t); return s(r); }
  public static Value VMin(Value u) { double r = Double.POSITIVE_INFINITY; for (double t : vec(u)) r = Math.min(r, t); return s(r); }
  // cyclic Jacobi; returns eigenvalues in w, eigenvectors in the columns of v
  static void jacobi(double[][] a, double[] w, double[][] v) {
    int n = a.length;
    for (int i = 0; i < n; i++) { same(a[i].length, n); for (int j = 0; j < i; j++) a[i][j] = a[j][i] = 0.5 * (a[i][j] + a[j][i]); v[i][i] = 1; }
    for (int sweep = 0; sweep < 100; sweep++) {
      double off = 0, tot = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i != j) off += a[i][j] * a[i][j]; tot += a[i][j] * a[i][j]; }
      if (!(off > 1e-40 * tot)) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
        if (a[p][q] == 0) continue;
        double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
        double t = Math.signum(th == 0 ? 1 : th) / (Math.abs(th) + Math.sqrt(th * th + 1)), c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
      }
    }
    for (int i = 0; i < n; i++) w[i] = a[i][i];
  }
  static Value fun(Value m, java.util.function.DoubleUnaryOperator f) {
    double[][] a = mat(m); int n = a.length; double[] w = new double[n]; double[][] v = new double[n][n], r = new double[n][n];
    jacobi(a, w, v);
    for (int k = 0; k < n; k++) { double g = f.applyAsDouble(w[k]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] += g * v[i][k] * v[j][k]; }
    return mat(r);
  }
  public static Value MSqrt(Value m) { return fun(m, x -> Math.sqrt(Math.max(x, 0))); }
  public static Value MInvSqrt(Value m) { return fun(m, x -> 1 / Math.sqrt(x)); }
  public static Value MEigs(Value m) { double[][] a = mat(m); double[] w = new double[a.length]; jacobi(a, w, new double[a.length][a.length]); java.util.Arrays.sort(w); return vec(w); }
}
