import java.io.FileWriter;
import java.io.PrintWriter;
import java.math.BigDecimal;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC's implementation of the operators module Num declares: IEEE doubles, written as TLA+ strings.
 * (TLC's own integers are 32 bit and it has no reals.)  One arithmetic operation per operator;
 * everything the specification says about stars is in the .tla files, none of it here.
 */
public class Num {
  static double d(Value v) {
    if (v instanceof NumReal) return ((NumReal) v).v;
    try {
      return Double.parseDouble(((StringValue) v).val.toString());
    } catch (NumberFormatException e) {
      return Double.NaN;   // something was recorded that is no number: close to nothing
    }
  }
  static Value s(double x) { return new NumReal(x); }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] ds(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
    return r;
  }

  public static Value RAdd(Value x, Value y) { return s(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return s(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return s(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return s(d(x) / d(y)); }
  public static Value RNeg(Value x) { return s(-d(x)); }
  public static Value RAbs(Value x) { return s(Math.abs(d(x))); }
  public static Value RMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  public static Value RMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  public static Value RSqrt(Value x) { return s(Math.sqrt(d(x))); }
  public static Value RSin(Value x) { return s(Math.sin(d(x))); }
  public static Value RCos(Value x) { return s(Math.cos(d(x))); }
  public static Value RTan(Value x) { return s(Math.tan(d(x))); }
  public static Value RAsin(Value x) { return s(Math.asin(d(x))); }
  public static Value RAcos(Value x) { return s(Math.acos(d(x))); }
  public static Value RExp(Value x) { return s(Math.exp(d(x))); }
  public static Value RLn(Value x) { return s(Math.log(d(x))); }
  public static Value RLog10(Value x) { return s(Math.log10(d(x))); }
  public static Value RPow(Value x, Value y) { return s(Math.pow(d(x), d(y))); }
  public static BoolValue RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static BoolValue RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static BoolValue RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static BoolValue RFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  public static BoolValue RClose(Value x, Value y, Value rel, Value abs) {
    double a = d(x), c = d(y);
    if (a == c) return BoolValue.ValTrue;
    if (Double.isInfinite(a) || Double.isInfinite(c)) return BoolValue.ValFalse;
    return b(Math.abs(a - c) <= Math.max(d(abs), d(rel) * Math.max(Math.abs(a), Math.abs(c))));
  }
  /** round half to even, as a number */
  public static Value RRound(Value x) { return s(Math.rint(d(x))); }
  public static Value RInt(Value n) { return s(((IntValue) n).val); }
  public static IntValue RFloor(Value x) {
    double f = Math.floor(d(x));
    if (Double.isNaN(f)) f = -1;
    return IntValue.gen((int) Math.max(Integer.MIN_VALUE + 1.0, Math.min(Integer.MAX_VALUE - 1.0, f)));
  }
  public static Value RSum(Value seq) { double t = 0; for (double x : ds(seq)) t += x; return s(t); }
  public static Value RMaxSeq(Value seq) {
    double t = Double.NEGATIVE_INFINITY; for (double x : ds(seq)) t = Math.max(t, x); return s(t);
  }
  public static Value RMinSeq(Value seq) {
    double t = Double.POSITIVE_INFINITY; for (double x : ds(seq)) t = Math.min(t, x); return s(t);
  }
  /** the numbers of a sequence in ascending order */
  public static Value RSort(Value seq) {
    double[] r = ds(seq);
    java.util.Arrays.sort(r);
    Value[] v = new Value[r.length];
    for (int i = 0; i < r.length; i++) v[i] = s(r[i]);
    return new TupleValue(v);
  }
  /** the number rounded (half even, exactly) to two decimals */
  public static Value RCent(Value x) {
    double v = d(x);
    if (Double.isNaN(v) || Double.isInfinite(v)) return s(v);
    return s(new BigDecimal(v).setScale(2, RoundingMode.HALF_EVEN).doubleValue());
  }

  /** the same value, computed now and once (TLC evaluates function constructors lazily) */
  public static Value Force(Value v) {
    if (v instanceof tlc2.value.impl.FcnLambdaValue) {
      Value t = v.toTuple();
      return t != null ? t : v.toFcnRcd();
    }
    return v;
  }

  private static PrintWriter out;
  /** appends one line to the file named by -Dnum.emit; always TRUE */
  public static synchronized BoolValue Emit(Value line) {
    String f = System.getProperty("num.emit");
    if (f == null) return BoolValue.ValTrue;
    try {
      if (out == null) {
        out = new PrintWriter(new FileWriter(f, true), false);
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (Num.class) { out.flush(); out.close(); } }));
      }
      out.println(((StringValue) line).val.toString());
    } catch (java.io.IOException e) {
      throw new RuntimeException(e);
    }
    return BoolValue.ValTrue;
  }
}
