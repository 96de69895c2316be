------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* The conditioning component: Keccak-f[1600], SHA3-256, SHAKE256 and the  *)
(* XDRBG-256 construction on top of it, on byte sequences.  KeccakF and    *)
(* XorAt may be replaced by java/Keccak.java; KeccakCheck validates the    *)
(* definitions below against the FIPS 202 test vectors and the override    *)
(* against the definitions.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, U64, Bitwise, TLC

Rate == 136

\* lanes are U64 values; index 1 + x + 5*y
Xor64(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
AndNot64(a, b) ==  \* (not a) and b
  << (B - 1 - a[1]) & b[1], (B - 1 - a[2]) & b[2], (B - 1 - a[3]) & b[3], (B - 1 - a[4]) & b[4] >>
Rotl64(a, n) ==
  LET w == n \div 16  s == n % 16
      L(i) == a[((i - w) % 4) + 1]           \* limb i (0-based) after whole-limb rotation
      R(i) == IF s = 0 THEN L(i)
              ELSE ((L(i) % (2 ^ (16 - s))) * (2 ^ s)) + (L((i + 3) % 4) \div (2 ^ (16 - s)))
  IN  << R(0), R(1), R(2), R(3) >>

RotC == << 0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39,
           41, 45, 15, 21, 8, 18, 2, 61, 56, 14 >>
RC == << <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>,
         <<32907,0,0,0>>, <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>,
         <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
         <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>,
         <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
         <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>

Round(a, rc) ==
  LET C == TLCEval([x \in 0..4 |-> Xor64(a[x+1], Xor64(a[x+6], Xor64(a[x+11], Xor64(a[x+16], a[x+21]))))])
      D == TLCEval([x \in 0..4 |-> Xor64(C[(x + 4) % 5], Rotl64(C[(x + 1) % 5], 1))])
      T == TLCEval([i \in 1..25 |-> Xor64(a[i], D[(i - 1) % 5])])
      \* rho and pi: B[y, 2x+3y] = rot(A[x,y])
      P == TLCEval([i \in 1..25 |->
             LET X == (i - 1) % 5  Y == (i - 1) \div 5     \* destination
                 y0 == X                                    \* X = y0
                 x0 == (3 * (Y - 3 * y0 + 15)) % 5          \* Y = 2*x0 + 3*y0
             IN  Rotl64(T[1 + x0 + 5 * y0], RotC[1 + x0 + 5 * y0])])
      E == TLCEval([i \in 1..25 |->
             LET X == (i - 1) % 5  Y == (i - 1) \div 5
             IN  Xor64(P[i], AndNot64(P[1 + ((X + 1) % 5) + 5 * Y], P[1 + ((X + 2) % 5) + 5 * Y]))])
  IN  TLCEval([E EXCEPT ![1] = Xor64(@, rc)])

RECURSIVE Rounds(_, _)
Rounds(a, r) == IF r > 24 THEN a ELSE Rounds(Round(a, RC[r]), r + 1)

LaneOf(s, i) == << s[8*i+1] + 256 * s[8*i+2], s[8*i+3] + 256 * s[8*i+4],
                   s[8*i+5] + 256 * s[8*i+6], s[8*i+7] + 256 * s[8*i+8] >>
RECURSIVE Unlane(_, _)
Unlane(a, i) == IF i > 25 THEN <<>> ELSE Bytes64(a[i]) \o Unlane(a, i + 1)

\* permutation on a state of 200 bytes
KeccakF(s) == Unlane(Rounds(TLCEval([i \in 1..25 |-> LaneOf(s, i - 1)]), 1), 1)

\* s with the bytes m exclusive-ored in from offset n on
XorAt(s, n, m) == TLCEval([i \in 1..200 |-> IF i > n /\ i <= n + Len(m) THEN s[i] ^^ m[i - n] ELSE s[i]])

Zeros(n) == [i \in 1..n |-> 0]
Sponge0 == [s |-> Zeros(200), n |-> 0]

RECURSIVE Absorb(_, _)
Absorb(sp, m) ==
  IF Len(m) < Rate - sp.n THEN [s |-> XorAt(sp.s, sp.n, m), n |-> sp.n + Len(m)]
  ELSE LET k == Rate - sp.n
       IN  Absorb([s |-> KeccakF(XorAt(sp.s, sp.n, SubSeq(m, 1, k))), n |-> 0],
                  SubSeq(m, k + 1, Len(m)))

\* pad with the given suffix bits and squeeze k <= Rate bytes
Final(sp, suffix, k) ==
  SubSeq(KeccakF(XorAt(XorAt(sp.s, sp.n, <<suffix>>), Rate - 1, <<128>>)), 1, k)

Sha3256(m) == Final(Absorb(Sponge0, m), 6, 32)
Shake256(sp, k) == Final(sp, 31, k)

(***************************************************************************)
(* Hash loop: iterated SHA3-256 over digest, health test state and index.  *)
(***************************************************************************)
ZeroDigest == Zeros(32)
U32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
U16(n) == << n % 256, (n \div 256) % 256 >>
RECURSIVE HashIter(_, _, _, _)
HashIter(dig, info, j, n) ==
  IF j = n THEN dig
  ELSE HashIter(Sha3256(dig \o info \o Bytes64(FromInt(j))), info, j + 1, n)
HashLoop(h, aptcut, n) ==
  HashIter(ZeroDigest,
           U32(h.rct) \o U32(aptcut) \o U32(h.ao) \o U32(h.ac) \o Bytes64(h.ab) \o U16(h.mc),
           0, n)

(***************************************************************************)
(* XDRBG-256.  pool.init tells whether a state V was generated before.     *)
(***************************************************************************)
\* im is the last measurement's contribution, v the state chained by the last block.
PoolInit == [sp |-> Sponge0, init |-> FALSE, im |-> <<>>, v |-> <<>>]
PoolAbsorb(p, d, sep, dig) ==
  LET m == Bytes64(d) \o <<sep>> \o dig
  IN  [p EXCEPT !.sp = Absorb(@, m \o Zeros(Rate - 41)), !.im = m]
PoolGenerate(p, n) ==
  LET v1 == Shake256(Absorb(p.sp, << IF p.init THEN 85 ELSE 0 >>), 64)   \* (re)seed
      x  == Shake256(Absorb(Sponge0, v1 \o <<170>>), 96)                  \* generate
  IN  [ pool |-> [sp |-> Absorb(Sponge0, SubSeq(x, 1, 64)), init |-> TRUE, im |-> p.im,
                  v |-> SubSeq(x, 1, 64)],
        out |-> SubSeq(x, 65, 64 + n),
        spent |-> << v1, SubSeq(x, 65, 96), p.v >> ]                       \* must be forgotten
=============================================================================
