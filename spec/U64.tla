-------------------------------- MODULE U64 --------------------------------
(***************************************************************************)
(* Unsigned 64-bit arithmetic modulo 2^64 on four 16-bit limbs, least      *)
(* significant first.  TLC's integers are 32 bit, the library's time       *)
(* stamps and deltas are 64 bit, and several guarantees are about exactly  *)
(* the wrap-around (a clock running backwards, a divisor near 2^31).       *)
(*                                                                         *)
(* For speed TLC may replace the operators named here by the class U64     *)
(* (java/U64.java); U64Check compares both on a grid of corner cases.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

B == 65536
Zero64 == <<0, 0, 0, 0>>
One64 == <<1, 0, 0, 0>>

\* a natural below 2^31
FromInt(n) == <<n % B, n \div B, 0, 0>>

Add64(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div B)
      s3 == a[3] + b[3] + (s2 \div B)
      s4 == a[4] + b[4] + (s3 \div B)
  IN  <<s1 % B, s2 % B, s3 % B, s4 % B>>

Neg64(a) == Add64(<<B - 1 - a[1], B - 1 - a[2], B - 1 - a[3], B - 1 - a[4]>>, One64)

Sub64(a, b) == Add64(a, Neg64(b))

Lt64(a, b) ==
  \/ a[4] < b[4]
  \/ a[4] = b[4] /\ \/ a[3] < b[3]
                    \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                      \/ a[2] = b[2] /\ a[1] < b[1]

\* a times a natural k below 2^15
MulSmall(a, k) ==
  LET p1 == a[1] * k
      p2 == a[2] * k + (p1 \div B)
      p3 == a[3] * k + (p2 \div B)
      p4 == a[4] * k + (p3 \div B)
  IN  <<p1 % B, p2 % B, p3 % B, p4 % B>>

Bit64(a, i) == (a[(i \div 16) + 1] \div (2 ^ (i % 16))) % 2

\* schoolbook binary division; i is the number of dividend bits left
RECURSIVE DivMod(_, _, _, _, _)
DivMod(a, b, i, q, r) ==
  IF i = 0 THEN <<q, r>>
  ELSE LET top == Bit64(r, 63)
           r2  == Add64(Add64(r, r), FromInt(Bit64(a, i - 1)))
           ge  == top = 1 \/ ~Lt64(r2, b)
           q2  == Add64(Add64(q, q), FromInt(IF ge THEN 1 ELSE 0))
       IN  DivMod(a, b, i - 1, q2, IF ge THEN Sub64(r2, b) ELSE r2)

Div64(a, b) == IF b = One64 THEN a ELSE DivMod(a, b, 64, Zero64, Zero64)[1]
Mod64(a, b) == DivMod(a, b, 64, Zero64, Zero64)[2]

RECURSIVE Gcd64(_, _)
Gcd64(a, b) == IF b = Zero64 THEN a ELSE Gcd64(b, Mod64(a, b))

AbsDiff64(a, b) == IF Lt64(a, b) THEN Sub64(b, a) ELSE Sub64(a, b)

\* little-endian bytes
Bytes64(a) == << a[1] % 256, a[1] \div 256, a[2] % 256, a[2] \div 256,
                 a[3] % 256, a[3] \div 256, a[4] % 256, a[4] \div 256 >>
=============================================================================
