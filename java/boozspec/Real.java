package boozspec;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * IEEE double arithmetic for TLC: the operators of module BoozReal.
 *
 * A vector of n doubles is the TLA+ sequence of 2n integers <<hi_1, lo_1, ...>>
 * holding the two 32-bit halves of every number, so vectors are ordinary TLA+
 * values: equality is bit equality, and they can be stored in states, logged
 * and read back from JSON. A vector of length 1 broadcasts like a scalar.
 */
public class Real {
  static final String M = "BoozReal";

  static double[] d(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a vector: " + v);
    final Value[] e = t.elems;
    final double[] r = new double[e.length / 2];
    for (int i = 0; i < r.length; i++) {
      final long hi = ((IntValue) e[2 * i]).val, lo = ((IntValue) e[2 * i + 1]).val;
      r[i] = Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    return r;
  }
  static Value v(final double[] r) {
    final Value[] e = new Value[2 * r.length];
    for (int i = 0; i < r.length; i++) {
      final long b = Double.doubleToRawLongBits(r[i]);
      e[2 * i] = IntValue.gen((int) (b >> 32));
      e[2 * i + 1] = IntValue.gen((int) b);
    }
    return new TupleValue(e);
  }
  static Value v(final double x) { return v(new double[] { x }); }
  static double s(final Value v) {
    final double[] r = d(v);
    if (r.length != 1) throw new RuntimeException("not a scalar, length " + r.length);
    return r[0];
  }
  static int i(final Value v) { return ((IntValue) v).val; }
  static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  interface Op1 { double f(double a); }
  interface Op2 { double f(double a, double b); }
  static Value map(final Value a, final Op1 f) {
    final double[] x = d(a);
    for (int i = 0; i < x.length; i++) x[i] = f.f(x[i]);
    return v(x);
  }
  static Value zip(final Value a, final Value c, final Op2 f) {
    final double[] x = d(a), y = d(c);
    if (x.length == 1 && y.length != 1) {
      for (int i = 0; i < y.length; i++) y[i] = f.f(x[0], y[i]);
      return v(y);
    }
    if (y.length == 1) {
      for (int i = 0; i < x.length; i++) x[i] = f.f(x[i], y[0]);
      return v(x);
    }
    if (x.length != y.length) throw new RuntimeException("lengths differ: " + x.length + " " + y.length);
    for (int i = 0; i < x.length; i++) x[i] = f.f(x[i], y[i]);
    return v(x);
  }

  @TLAPlusOperator(identifier = "FromInt", module = M, warn = false)
  public static Value fromInt(final Value n) { return v((double) i(n)); }
  @TLAPlusOperator(identifier = "FromInts", module = M, warn = false)
  public static Value fromInts(final Value n) {
    final Value[] e = ((TupleValue) n.toTuple()).elems;
    final double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = i(e[i]);
    return v(r);
  }
  @TLAPlusOperator(identifier = "ToInts", module = M, warn = false)
  public static Value toInts(final Value a) {
    final double[] x = d(a);
    final Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen((int) x[i]);
    return new TupleValue(e);
  }
  @TLAPlusOperator(identifier = "Dec", module = M, warn = false)
  public static Value dec(final Value t) { return v(Double.parseDouble(((StringValue) t).val.toString())); }
  @TLAPlusOperator(identifier = "Fill", module = M, warn = false)
  public static Value fill(final Value n, final Value x) {
    final double[] r = new double[i(n)];
    java.util.Arrays.fill(r, s(x));
    return v(r);
  }
  @TLAPlusOperator(identifier = "Count", module = M, warn = false)
  public static Value count(final Value n) {
    final double[] r = new double[i(n)];
    for (int k = 0; k < r.length; k++) r[k] = k;
    return v(r);
  }
  @TLAPlusOperator(identifier = "Add", module = M, warn = false)
  public static Value add(final Value a, final Value c) { return zip(a, c, (x, y) -> x + y); }
  @TLAPlusOperator(identifier = "Sub", module = M, warn = false)
  public static Value sub(final Value a, final Value c) { return zip(a, c, (x, y) -> x - y); }
  @TLAPlusOperator(identifier = "Mul", module = M, warn = false)
  public static Value mul(final Value a, final Value c) { return zip(a, c, (x, y) -> x * y); }
  @TLAPlusOperator(identifier = "Quo", module = M, warn = false)
  public static Value quo(final Value a, final Value c) { return zip(a, c, (x, y) -> x / y); }
  @TLAPlusOperator(identifier = "Larger", module = M, warn = false)
  public static Value larger(final Value a, final Value c) { return zip(a, c, (x, y) -> Math.max(x, y)); }
  @TLAPlusOperator(identifier = "Neg", module = M, warn = false)
  public static Value neg(final Value a) { return map(a, x -> -x); }
  @TLAPlusOperator(identifier = "AbsR", module = M, warn = false)
  public static Value abs(final Value a) { return map(a, Math::abs); }
  @TLAPlusOperator(identifier = "SqrtR", module = M, warn = false)
  public static Value sqrt(final Value a) { return map(a, Math::sqrt); }
  @TLAPlusOperator(identifier = "SinR", module = M, warn = false)
  public static Value sin(final Value a) { return map(a, Math::sin); }
  @TLAPlusOperator(identifier = "CosR", module = M, warn = false)
  public static Value cos(final Value a) { return map(a, Math::cos); }
  @TLAPlusOperator(identifier = "Dot", module = M, warn = false)
  public static Value dot(final Value a, final Value c) {
    final double[] x = d(a), y = d(c);
    if (x.length != y.length) throw new RuntimeException("lengths differ: " + x.length + " " + y.length);
    double t = 0;
    for (int i = 0; i < x.length; i++) t += x[i] * y[i];
    return v(t);
  }
  @TLAPlusOperator(identifier = "SumR", module = M, warn = false)
  public static Value sum(final Value a) {
    double t = 0;
    for (double x : d(a)) t += x;
    return v(t);
  }
  @TLAPlusOperator(identifier = "MaxAbs", module = M, warn = false)
  public static Value maxAbs(final Value a) {
    double t = 0;
    for (double x : d(a)) t = Math.max(t, Math.abs(x));
    return v(t);
  }
  @TLAPlusOperator(identifier = "MaxR", module = M, warn = false)
  public static Value max(final Value a) {
    double t = Double.NEGATIVE_INFINITY;
    for (double x : d(a)) t = Math.max(t, x);
    return v(t);
  }
  @TLAPlusOperator(identifier = "LenR", module = M, warn = false)
  public static Value len(final Value a) { return IntValue.gen(((TupleValue) a.toTuple()).elems.length / 2); }
  @TLAPlusOperator(identifier = "At", module = M, warn = false)
  public static Value at(final Value a, final Value k) {
    final Value[] e = ((TupleValue) a.toTuple()).elems;
    final int j = i(k);
    if (j < 1 || 2 * j > e.length) throw new RuntimeException("index " + j + " out of 1.." + e.length / 2);
    return new TupleValue(new Value[] { e[2 * j - 2], e[2 * j - 1] });
  }
  @TLAPlusOperator(identifier = "Slice", module = M, warn = false)
  public static Value slice(final Value a, final Value from, final Value n) {
    final Value[] e = ((TupleValue) a.toTuple()).elems;
    final int f = i(from), m = i(n);
    if (f < 1 || m < 0 || 2 * (f - 1 + m) > e.length)
      throw new RuntimeException("slice " + f + "+" + m + " out of 1.." + e.length / 2);
    return new TupleValue(java.util.Arrays.copyOfRange(e, 2 * (f - 1), 2 * (f - 1 + m)));
  }
  @TLAPlusOperator(identifier = "CatAll", module = M, warn = false)
  public static Value catAll(final Value parts) {
    final Value[] p = ((TupleValue) parts.toTuple()).elems;
    int n = 0;
    final Value[][] q = new Value[p.length][];
    for (int k = 0; k < p.length; k++) { q[k] = ((TupleValue) p[k].toTuple()).elems; n += q[k].length; }
    final Value[] r = new Value[n];
    n = 0;
    for (Value[] x : q) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Pick", module = M, warn = false)
  public static Value pick(final Value a, final Value idx) {
    final Value[] e = ((TupleValue) a.toTuple()).elems;
    final Value[] ix = ((TupleValue) idx.toTuple()).elems;
    final Value[] r = new Value[2 * ix.length];
    for (int k = 0; k < ix.length; k++) {
      final int j = i(ix[k]);
      if (j < 1 || 2 * j > e.length) throw new RuntimeException("index " + j + " out of 1.." + e.length / 2);
      r[2 * k] = e[2 * j - 2];
      r[2 * k + 1] = e[2 * j - 1];
    }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "LtR", module = M, warn = false)
  public static Value lt(final Value a, final Value c) { return b(s(a) < s(c)); }
  @TLAPlusOperator(identifier = "LeR", module = M, warn = false)
  public static Value le(final Value a, final Value c) { return b(s(a) <= s(c)); }
  @TLAPlusOperator(identifier = "Close", module = M, warn = false)
  public static Value close(final Value a, final Value c, final Value tol) {
    final double[] x = d(a), y = d(c);
    final double t = s(tol);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++)
      if (!(Math.abs(x[i] - y[i]) <= t)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "SameR", module = M, warn = false)
  public static Value same(final Value a, final Value c) {
    final double[] x = d(a), y = d(c);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++)
      if (!(x[i] == y[i]) && Double.doubleToRawLongBits(x[i]) != Double.doubleToRawLongBits(y[i])) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "IsZero", module = M, warn = false)
  public static Value isZero(final Value a) {
    for (double x : d(a)) if (!(x == 0)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "Finite", module = M, warn = false)
  public static Value finite(final Value a) {
    for (double x : d(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "Show", module = M, warn = false)
  public static Value show(final Value a) {
    final double[] x = d(a);
    return new StringValue(x.length == 1 ? Double.toString(x[0]) : java.util.Arrays.toString(x));
  }
  @TLAPlusOperator(identifier = "Series", module = M, warn = false)
  public static Value series(final Value ms, final Value ns, final Value c, final Value s, final Value th, final Value ze) {
    final Value[] m = ((TupleValue) ms.toTuple()).elems, n = ((TupleValue) ns.toTuple()).elems;
    final double[] cc = d(c), ss = d(s), t = d(th), z = d(ze);
    final double[] r = new double[t.length];
    for (int k = 0; k < m.length; k++) {
      final double mk = i(m[k]), nk = i(n[k]);
      for (int j = 0; j < r.length; j++) {
        final double a = mk * t[j] - nk * z[j];
        r[j] += cc[k] * Math.cos(a) + ss[k] * Math.sin(a);
      }
    }
    return v(r);
  }
  static Value project(final Value f, final Value ms, final Value ns, final Value th, final Value ze, final boolean cosine) {
    final Value[] m = ((TupleValue) ms.toTuple()).elems, n = ((TupleValue) ns.toTuple()).elems;
    final double[] x = d(f), t = d(th), z = d(ze);
    final double[] r = new double[m.length];
    for (int k = 0; k < m.length; k++) {
      final double mk = i(m[k]), nk = i(n[k]);
      for (int j = 0; j < x.length; j++) {
        final double a = mk * t[j] - nk * z[j];
        r[k] += x[j] * (cosine ? Math.cos(a) : Math.sin(a));
      }
    }
    return v(r);
  }
  @TLAPlusOperator(identifier = "ProjectC", module = M, warn = false)
  public static Value projectC(final Value f, final Value ms, final Value ns, final Value th, final Value ze) {
    return project(f, ms, ns, th, ze, true);
  }
  @TLAPlusOperator(identifier = "ProjectS", module = M, warn = false)
  public static Value projectS(final Value f, final Value ms, final Value ns, final Value th, final Value ze) {
    return project(f, ms, ns, th, ze, false);
  }
}
