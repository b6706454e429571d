import tlc2.value.impl.*;
/** Trusted evaluator of module R64 (IEEE-754 doubles as pairs of 32-bit halves). */
public class R64 {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    return Double.longBitsToDouble((((long) ((IntValue) t.elems[0]).val) << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static final long NAN = Double.doubleToLongBits(Double.NaN);
  static Value v(double x) {
    if (x == 0.0) x = 0.0;               // no negative zero
    long l = Double.isNaN(x) ? NAN : Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[]{IntValue.gen((int) (l >> 32)), IntValue.gen((int) l)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RAdd(Value a, Value b) { return v(d(a) + d(b)); }
  public static Value RSub(Value a, Value b) { return v(d(a) - d(b)); }
  public static Value RMul(Value a, Value b) { return v(d(a) * d(b)); }
  public static Value RDiv(Value a, Value b) { return v(d(a) / d(b)); }
  public static Value RNeg(Value a) { return v(-d(a)); }
  public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLeq(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RMin(Value a, Value b) { return v(Math.min(d(a), d(b))); }
  public static Value RMax(Value a, Value b) { return v(Math.max(d(a), d(b))); }
  public static Value RI(Value n) { return v(((IntValue) n).val); }
  public static Value RTrunc(Value a) { return IntValue.gen((int) d(a)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return v(StrictMath.exp(d(a))); }
  public static Value RLn(Value a) { return v(StrictMath.log(d(a))); }
  public static Value RPow(Value a, Value b) { return v(StrictMath.pow(d(a), d(b))); }
  public static Value RSin(Value a) { return v(StrictMath.sin(d(a))); }
  public static Value RCos(Value a) { return v(StrictMath.cos(d(a))); }
  public static Value RAsin(Value a) { return v(StrictMath.asin(d(a))); }
  public static Value RAtan(Value a) { return v(StrictMath.atan(d(a))); }
  public static Value RTanh(Value a) { return v(StrictMath.tanh(d(a))); }
  public static Value RFloor(Value a) { return v(Math.floor(d(a))); }
  public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }
  private static final java.util.concurrent.ConcurrentHashMap<String, Value> LIT = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value R(Value s) {
    return LIT.computeIfAbsent(((StringValue) s).val.toString(), k -> v(Double.parseDouble(k)));
  }
  static Value[] elems(Value s) { return ((TupleValue) s.toTuple()).elems; }
  public static Value RSum(Value s) { double r = 0.0; for (Value e : elems(s)) r += d(e); return v(r); }
  public static Value RClose(Value a, Value b, Value rel, Value ab) {
    double x = d(a), y = d(b);
    if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
    return b(x == y || Math.abs(x - y) <= d(rel) * Math.max(Math.abs(x), Math.abs(y)) + d(ab));
  }
}
