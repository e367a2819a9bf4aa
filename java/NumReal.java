import java.io.IOException;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * A computed number of module Num.  It is the string that denotes it (same equality, fingerprint and
 * encoding as that StringValue), kept as a double so that intermediate results are not interned.
 */
public class NumReal extends Value {
  final double v;
  NumReal(double v) { this.v = v; }
  StringValue str() { return new StringValue(Double.toString(v)); }
  public byte getKind() { return STRINGVALUE; }
  public int compareTo(Object o) { return str().compareTo(o instanceof NumReal ? ((NumReal) o).str() : o); }
  public boolean equals(Object o) {
    if (o instanceof NumReal) return Double.compare(v, ((NumReal) o).v) == 0;
    return str().equals(o);
  }
  public boolean member(Value e) { return str().member(e); }
  public boolean isFinite() { return str().isFinite(); }
  public Value takeExcept(ValueExcept x) { return str().takeExcept(x); }
  public Value takeExcept(ValueExcept[] x) { return str().takeExcept(x); }
  public int size() { return str().size(); }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public void write(IValueOutputStream vos) throws IOException { str().write(vos); }
  public long fingerPrint(long fp) { return str().fingerPrint(fp); }
  public IValue permute(tlc2.value.IMVPerm perm) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return str().toString(sb, off, swallow); }
  public String toUnquotedString() { return Double.toString(v); }
}
