import java.math.BigDecimal;
import java.math.RoundingMode;
import java.util.Arrays;
import tlc2.value.impl.*;

public class Doubles {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value v(double x) {
    long b = Double.doubleToLongBits(x == 0 ? 0.0 : x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value D(Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
  private static final java.util.regex.Pattern NUM = java.util.regex.Pattern.compile("[+-]?(\\d+\\.?\\d*|\\.\\d+)([eE][+-]?\\d+)?");
  private static final java.util.regex.Pattern INT = java.util.regex.Pattern.compile("[+-]?\\d{1,9}");
  private static String s(Value v) { return ((StringValue) v).val.toString(); }
  public static Value NumText(Value x) {
    return NUM.matcher(s(x)).matches() ? new TupleValue(new Value[] { v(Double.parseDouble(s(x))) }) : new TupleValue(new Value[0]);
  }
  public static Value IntText(Value x) {
    return INT.matcher(s(x)).matches() ? new TupleValue(new Value[] { IntValue.gen(Integer.parseInt(s(x))) }) : new TupleValue(new Value[0]);
  }
  public static Value Lower(Value x) { return new StringValue(s(x).toLowerCase()); }
  public static Value DInt(Value n) { return v(((IntValue) n).val); }
  public static Value DStr(Value x) { return new StringValue(Double.toString(d(x))); }
  public static Value DAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value DSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value DMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value DDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value DPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
  public static Value DMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
  public static Value DMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
  public static Value DAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value DLog(Value x) { return v(Math.log(d(x))); }
  public static Value DSqrt(Value x) { return v(Math.sqrt(d(x))); }
  public static Value DLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value DLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value DEq(Value x, Value y) { return b(d(x) == d(y)); }
  private static Value[] elems(Value s) {
    TupleValue t = (s instanceof TupleValue) ? (TupleValue) s : (TupleValue) s.toTuple();
    return t.elems;
  }
  public static Value DSum(Value s) {
    Value[] e = elems(s);
    if (e.length == 0) return v(0.0);
    BigDecimal acc = BigDecimal.ZERO; double plain = 0;
    for (Value x : e) { double y = d(x); plain += y; if (Double.isNaN(y) || Double.isInfinite(y)) { double p = 0; for (Value z : e) p += d(z); return v(p); } acc = acc.add(new BigDecimal(y)); }
    return v(acc.doubleValue());
  }
  public static Value DRound(Value x, Value n) {
    double y = d(x);
    if (Double.isNaN(y) || Double.isInfinite(y)) return v(y);
    return v(new BigDecimal(y).setScale(((IntValue) n).val, RoundingMode.HALF_EVEN).doubleValue());
  }
  public static Value DFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  public static Value DNear(Value x, Value y, Value rel, Value abs) {
    double p = d(x), q = d(y);
    if (p == q) return b(true);
    if (Double.isNaN(p) && Double.isNaN(q)) return b(true);
    return b(Math.abs(p - q) <= d(rel) * Math.max(Math.abs(p), Math.abs(q)) + d(abs));
  }
  public static Value DSortIdx(Value s) {
    Value[] e = elems(s);
    final double[][] k = new double[e.length][];
    Integer[] idx = new Integer[e.length];
    for (int i = 0; i < e.length; i++) {
      Value[] t = elems(e[i]); k[i] = new double[t.length]; idx[i] = i;
      for (int j = 0; j < t.length; j++) { double z = d(t[j]); k[i][j] = z == 0 ? 0.0 : z; }
    }
    Arrays.sort(idx, (p, q) -> { for (int j = 0; j < k[p].length; j++) { int c = Double.compare(k[p][j], k[q][j]); if (c != 0) return c; } return 0; });
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = IntValue.gen(idx[i] + 1);
    return new TupleValue(r);
  }
  public static Value MapOf(Value s) {
    Value[] e = elems(s);
    if (e.length == 0) return new TupleValue(new Value[0]);
    Value[] k = new Value[e.length], x = new Value[e.length];
    for (int i = 0; i < e.length; i++) { Value[] t = elems(e[i]); k[i] = t[0]; x[i] = t[1]; }
    return new FcnRcdValue(k, x, false).normalize();
  }
}
