// TLC operator overrides for module Real64: IEEE-754 double arithmetic on
// values written as TLA+ strings ("0.1", "nan", "inf", "-inf") or TLC integers.
// Results are canonical strings (Double.toString).  No property logic lives here.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

public class Real64 {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "NaN": return Double.NaN;
        case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        default: return Double.parseDouble(s);
      }
    }
    if (v instanceof BoolValue) return ((BoolValue) v).val ? 1.0 : 0.0;
    throw new RuntimeException("Real64: not a number: " + v);
  }
  static boolean num(Value v) {
    try { d(v); return true; } catch (RuntimeException e) { return false; }
  }
  static Value s(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (x == Double.POSITIVE_INFINITY) return new StringValue("inf");
    if (x == Double.NEGATIVE_INFINITY) return new StringValue("-inf");
    return new StringValue(Double.toString(x));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(Value a, Value c) { return s(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return s(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return s(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return s(d(a) / d(c)); }
  public static Value FNeg(Value a) { return s(-d(a)); }
  public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value FLn(Value a) { return s(Math.log(d(a))); }
  public static Value FLog2(Value a) { return s(Math.log(d(a)) / Math.log(2.0)); }
  public static Value FExp(Value a) { return s(Math.exp(d(a))); }
  public static Value FSin(Value a) { return s(Math.sin(d(a))); }
  public static Value FCos(Value a) { return s(Math.cos(d(a))); }
  public static Value FPow(Value a, Value c) { return s(Math.pow(d(a), d(c))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FGt(Value a, Value c) { return b(d(a) > d(c)); }
  public static Value FGe(Value a, Value c) { return b(d(a) >= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FMin(Value a, Value c) { return s(Math.min(d(a), d(c))); }
  public static Value FMax(Value a, Value c) { return s(Math.max(d(a), d(c))); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value FTrunc(Value a) { return IntValue.gen((int) d(a)); }
  public static Value FRound(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
  public static Value FCanon(Value a) { return s(d(a)); }
  // |a-c| <= tol * max(1,|a|,|c|); nan is close to nan, infinities to themselves
  static boolean close(double x, double y, double t) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= t * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value FClose(Value a, Value c, Value t) {
    if (!num(a) || !num(c)) return b(false);
    return b(close(d(a), d(c), d(t)));
  }
  static Value[] elems(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    return t == null ? null : t.elems;
  }
  public static Value FCloseSeq(Value a, Value c, Value t) {
    if (!seq(a) || !seq(c)) return b(false);
    Value[] x = elems(a), y = elems(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++)
      if (!num(x[i]) || !num(y[i]) || !close(d(x[i]), d(y[i]), d(t))) return b(false);
    return b(true);
  }
  public static Value FSum(Value v) {
    double r = 0; for (Value e : elems(v)) r += d(e); return s(r);
  }
  public static Value FDot(Value v, Value w) {
    Value[] x = elems(v), y = elems(w);
    double r = 0; for (int i = 0; i < x.length; i++) r += d(x[i]) * d(y[i]); return s(r);
  }
  public static Value FSqDist(Value v, Value w) {
    Value[] x = elems(v), y = elems(w);
    double r = 0; for (int i = 0; i < x.length; i++) { double q = d(x[i]) - d(y[i]); r += q * q; }
    return s(r);
  }
  // indices of v in ascending order of value, stable
  public static Value FArgSort(Value v) {
    final Value[] x = elems(v);
    Integer[] ix = new Integer[x.length];
    for (int i = 0; i < ix.length; i++) ix[i] = i;
    java.util.Arrays.sort(ix, (p, q) -> Double.compare(d(x[p]), d(x[q])));
    Value[] r = new Value[ix.length];
    for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(r);
  }
  static boolean seq(Value v) {
    return v instanceof TupleValue || (v instanceof FcnRcdValue || v instanceof FcnLambdaValue || v instanceof RecordValue) && v.toTuple() != null;
  }
  public static Value IsSeqV(Value v) { return b(seq(v)); }
  public static Value IsIntV(Value v) { return b(v instanceof IntValue); }
  public static Value IsBoolV(Value v) { return b(v instanceof BoolValue); }
  public static Value IsStrV(Value v) { return b(v instanceof StringValue); }
  public static Value IsNumV(Value v) { return b(num(v) && !(v instanceof BoolValue)); }
  // total structural equality: FALSE (never an error) on values of different kinds
  static boolean eq(Value a, Value c) {
    try {
      if (a instanceof IntValue || c instanceof IntValue)
        return a instanceof IntValue && c instanceof IntValue && ((IntValue) a).val == ((IntValue) c).val;
      if (a instanceof StringValue || c instanceof StringValue)
        return a instanceof StringValue && c instanceof StringValue && a.equals(c);
      if (a instanceof BoolValue || c instanceof BoolValue)
        return a instanceof BoolValue && c instanceof BoolValue && ((BoolValue) a).val == ((BoolValue) c).val;
      if (seq(a) && seq(c)) {
        Value[] x = elems(a), y = elems(c);
        if (x.length != y.length) return false;
        for (int i = 0; i < x.length; i++) if (!eq(x[i], y[i])) return false;
        return true;
      }
      Value p = (Value) a.toRcd(), q = (Value) c.toRcd();
      if (p != null && q != null) {
        RecordValue r1 = (RecordValue) p, r2 = (RecordValue) q;
        r1 = (RecordValue) r1.normalize(); r2 = (RecordValue) r2.normalize();
        if (r1.names.length != r2.names.length) return false;
        for (int i = 0; i < r1.names.length; i++)
          if (!r1.names[i].equals(r2.names[i]) || !eq(r1.values[i], r2.values[i])) return false;
        return true;
      }
      return a.equals(c);
    } catch (RuntimeException e) { return false; }
  }
  public static Value Eq(Value a, Value c) { return b(eq(a, c)); }
  // has the record/function a field named k
  public static Value HasField(Value r, Value k) {
    Value p = (Value) r.toRcd();
    if (p == null) return b(false);
    for (UniqueString n : ((RecordValue) p).names) if (n.equals(((StringValue) k).val)) return b(true);
    return b(false);
  }

  // standard normal distribution function (series near 0, continued fraction in the tails)
  static double phi(double z) {
    if (Double.isNaN(z)) return z;
    double x = Math.abs(z);
    if (x > 39) return z > 0 ? 1 : 0;
    double dens = Math.exp(-x * x / 2) / Math.sqrt(2 * Math.PI);
    if (x < 3.5) {
      double t = x, sum = x;
      for (int i = 1; i < 200 && t > 1e-18 * sum; i++) { t *= x * x / (2 * i + 1); sum += t; }
      double p = 0.5 + dens * sum;
      return z >= 0 ? p : 1 - p;
    }
    double f = x;
    for (int i = 120; i >= 1; i--) f = x + i / f;
    return z >= 0 ? 1 - dens / f : dens / f;
  }
  public static Value FPhi(Value a) { return s(phi(d(a))); }

  // the same value, fully evaluated (TLC keeps function constructors unevaluated)
  static Value force(Value v) {
    if (v instanceof LazyValue) return v;
    if (v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      v = t != null ? t : (Value) v.toFcnRcd();
    }
    if (v instanceof TupleValue) { Value[] e = ((TupleValue) v).elems; for (int i = 0; i < e.length; i++) e[i] = force(e[i]); }
    else if (v instanceof FcnRcdValue) { Value[] e = ((FcnRcdValue) v).values; for (int i = 0; i < e.length; i++) e[i] = force(e[i]); }
    else if (v instanceof RecordValue) { Value[] e = ((RecordValue) v).values; for (int i = 0; i < e.length; i++) e[i] = force(e[i]); }
    return v;
  }
  public static Value Force(Value v) { return force(v); }
  // a finite set of integers as an ascending sequence
  public static Value Ascending(Value v) {
    SetEnumValue t = (SetEnumValue) v.toSetEnum();
    t = (SetEnumValue) t.normalize();
    Value[] r = new Value[t.elems.size()];
    for (int i = 0; i < r.length; i++) r[i] = t.elems.elementAt(i);
    java.util.Arrays.sort(r, (p, q) -> Integer.compare(((IntValue) p).val, ((IntValue) q).val));
    return new TupleValue(r);
  }
}
