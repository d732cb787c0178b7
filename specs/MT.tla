----------------------------------- MODULE MT -----------------------------------
(* The 32-bit Mersenne twister (MT19937) over words <<hi16, lo16>>: the sequence   *)
(* C++ fixes for std::mt19937.                                                     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LOCAL B16 == 65536
WXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
WAnd(a, b) == << a[1] & b[1], a[2] & b[2] >>
\* logical shifts
WShr(a, k) == IF k >= 16 THEN << 0, shiftR(a[1], k - 16) >>
              ELSE << shiftR(a[1], k), ((a[1] * (2 ^ (16 - k))) % B16) + shiftR(a[2], k) >>
WShl(a, k) == IF k >= 16 THEN << (a[2] * (2 ^ (k - 16))) % B16, 0 >>
              ELSE << ((a[1] * (2 ^ k)) % B16) + ((a[2] * (2 ^ k)) \div B16), (a[2] * (2 ^ k)) % B16 >>
\* a * b mod 2^32; products of a 16-bit and an 8-bit number stay below 2^31
LOCAL Mul16(x, y) ==      \* full 32-bit product of two 16-bit numbers as <<hi, lo>>
    LET y0 == y % 256  y1 == y \div 256
        p0 == x * y0                         \* < 2^24
        p1 == x * y1                         \* < 2^24, weight 2^8
        lo == p0 + ((p1 % 256) * 256)        \* < 2^24 + 2^16
    IN << (p1 \div 256) + (lo \div B16), lo % B16 >>
WMul(a, b) == LET ll == Mul16(a[2], b[2])
                  h1 == Mul16(a[1], b[2])[2]
                  h2 == Mul16(a[2], b[1])[2]
              IN << (ll[1] + h1 + h2) % B16, ll[2] >>
WAddInt(a, n) == LET s == a[2] + n IN << (a[1] + (s \div B16)) % B16, s % B16 >>

LOCAL Up == << 32768, 0 >>
LOCAL Low == << 32767, 65535 >>
LOCAL MatA == << 39176, 45279 >>          \* 0x9908b0df
LOCAL F == << 27655, 35173 >>             \* 1812433253
LOCAL InitState(seed) ==
    FoldLeft(LAMBDA s, i : Append(s, LET p == s[Len(s)] IN WAddInt(WMul(F, WXor(p, WShr(p, 30))), i)),
             << seed >>, [i \in 1..623 |-> i])
\* x[k+624] from x[k], x[k+1], x[k+397]
LOCAL Twist(xk, xk1, xm) ==
    LET y == << (xk[1] & 32768) + (xk1[1] & 32767), xk1[2] >>
        t == WXor(xm, WShr(y, 1))
    IN IF y[2] % 2 = 1 THEN WXor(t, MatA) ELSE t
LOCAL Temper(x) ==
    LET a == WXor(x, WShr(x, 11))
        b == WXor(a, WAnd(WShl(a, 7), << 40236, 22144 >>))      \* 0x9d2c5680
        c == WXor(b, WAnd(WShl(b, 15), << 61382, 0 >>))         \* 0xefc60000
    IN WXor(c, WShr(c, 18))
\* the first n values of the sequence started by seed (a word)
MTSeq(seed, n) ==
    LET all == FoldLeft(LAMBDA s, k : Append(s, Twist(s[k], s[k + 1], s[k + 397])),
                        InitState(seed), [k \in 1..n |-> k])
    IN [k \in 1..n |-> Temper(all[k + 624])]
=================================================================================
