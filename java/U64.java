import tlc2.value.impl.*;
import tlc2.value.IBoolValue;
/* TLC overrides of module U64; validated against the TLA+ definitions by U64Check. */
public class U64 {
  private static long l(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return (long)((IntValue)e[0]).val | ((long)((IntValue)e[1]).val << 16) | ((long)((IntValue)e[2]).val << 32) | ((long)((IntValue)e[3]).val << 48);
  }
  private static Value t(long x) {
    return new TupleValue(new Value[]{ IntValue.gen((int)(x & 0xffff)), IntValue.gen((int)((x >>> 16) & 0xffff)),
      IntValue.gen((int)((x >>> 32) & 0xffff)), IntValue.gen((int)((x >>> 48) & 0xffff)) });
  }
  public static Value Add64(Value a, Value b) { return t(l(a) + l(b)); }
  public static Value Sub64(Value a, Value b) { return t(l(a) - l(b)); }
  public static Value Lt64(Value a, Value b) { return Long.compareUnsigned(l(a), l(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value MulSmall(Value a, Value k) { return t(l(a) * ((IntValue) k).val); }
  public static Value Div64(Value a, Value b) { return t(Long.divideUnsigned(l(a), l(b))); }
  public static Value Mod64(Value a, Value b) { return t(Long.remainderUnsigned(l(a), l(b))); }
  public static Value Gcd64(Value a, Value b) {
    long x = l(a), y = l(b);
    while (y != 0) { long r = Long.remainderUnsigned(x, y); x = y; y = r; }
    return t(x);
  }
  public static Value AbsDiff64(Value a, Value b) { long x = l(a), y = l(b); return t(Long.compareUnsigned(x, y) < 0 ? y - x : x - y); }
}
