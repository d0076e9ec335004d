/* TLC module override for F64.tla: IEEE-754 double arithmetic on numbers
 * carried as strings (TLC's own integers are 32-bit and it has no reals).
 * A string that is not a number is an error of the machinery, not a verdict. */
import tlc2.value.impl.*;

public class F64 {
  private static double d(Value v) {
    if (!(v instanceof StringValue)) throw new RuntimeException("F64: not a number string: " + v);
    return Double.parseDouble(((StringValue) v).getVal().toString());
  }
  private static Value s(double x) { return new StringValue(Double.toString(x)); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FAdd(Value a, Value b) { return s(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return s(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return s(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return s(d(a) / d(b)); }
  public static Value FNeg(Value a) { return s(-d(a)); }
  public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value FMax(Value a, Value b) { return s(Math.max(d(a), d(b))); }
  public static Value FMin(Value a, Value b) { return s(Math.min(d(a), d(b))); }
  public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value FFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FLn(Value a) { return s(Math.log(d(a))); }
  public static Value FLog10(Value a) { return s(Math.log10(d(a))); }
  public static Value FExp(Value a) { return s(Math.exp(d(a))); }
  public static Value FPow10(Value a) { return s(Math.pow(10., d(a))); }
  public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value FSinh(Value a) { return s(Math.sinh(d(a))); }
  public static Value FCosh(Value a) { return s(Math.cosh(d(a))); }
  public static Value FOfInt(Value a) { return s((double) ((IntValue) a).val); }
  /* nearest single-precision number */
  public static Value FF32(Value a) { return s((double) (float) d(a)); }
}
