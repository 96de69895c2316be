import tlc2.value.impl.*;
/* TLC overrides of module Keccak; validated by KeccakCheck. */
public class Keccak {
  private static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static final long[] RC = { 0x1L,0x8082L,0x800000000000808aL,0x8000000080008000L,0x808bL,0x80000001L,0x8000000080008081L,0x8000000000008009L,0x8aL,0x88L,0x80008009L,0x8000000aL,0x8000808bL,0x800000000000008bL,0x8000000000008089L,0x8000000000008003L,0x8000000000008002L,0x8000000000000080L,0x800aL,0x800000008000000aL,0x8000000080008081L,0x8000000000008080L,0x80000001L,0x8000000080008008L };
  private static final int[] ROT = { 1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44 };
  private static final int[] PIL = { 10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1 };
  public static Value KeccakF(Value s) {
    Value[] e = el(s);
    long[] a = new long[25];
    for (int i = 0; i < 200; i++) a[i / 8] |= ((long)((IntValue) e[i]).val) << (8 * (i % 8));
    long[] c = new long[5];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20];
      for (int x = 0; x < 5; x++) { long d = c[(x+4)%5] ^ Long.rotateLeft(c[(x+1)%5], 1); for (int y = 0; y < 25; y += 5) a[y+x] ^= d; }
      long t = a[1];
      for (int i = 0; i < 24; i++) { int j = PIL[i]; long b = a[j]; a[j] = Long.rotateLeft(t, ROT[i]); t = b; }
      for (int y = 0; y < 25; y += 5) {
        for (int x = 0; x < 5; x++) c[x] = a[y+x];
        for (int x = 0; x < 5; x++) a[y+x] = c[x] ^ (~c[(x+1)%5] & c[(x+2)%5]);
      }
      a[0] ^= RC[r];
    }
    Value[] o = new Value[200];
    for (int i = 0; i < 200; i++) o[i] = IntValue.gen((int)((a[i / 8] >>> (8 * (i % 8))) & 0xff));
    return new TupleValue(o);
  }
  public static Value XorAt(Value s, Value n, Value m) {
    Value[] e = el(s), x = el(m); int k = ((IntValue) n).val;
    Value[] o = e.clone();
    for (int i = 0; i < x.length; i++) o[k + i] = IntValue.gen(((IntValue) e[k + i]).val ^ ((IntValue) x[i]).val);
    return new TupleValue(o);
  }
}
