------------------------------- MODULE Murmur3 --------------------------------
(* MurmurHash3 x86 32 bit, seed 0, of text in UTF-8. Words are four bytes,     *)
(* lowest first, because integers here end at 2^31.                            *)
EXTENDS Integers, Sequences, Bitwise
W(a, b, c, d) == <<a, b, c, d>>
Zero == W(0, 0, 0, 0)
WXor(x, y) == [i \in 1..4 |-> x[i] ^^ y[i]]
WCarry(c) ==
  LET b1 == c[1]  b2 == c[2] + (b1 \div 256)  b3 == c[3] + (b2 \div 256)  b4 == c[4] + (b3 \div 256) IN
  W(b1 % 256, b2 % 256, b3 % 256, b4 % 256)
WAdd(x, y) == WCarry([i \in 1..4 |-> x[i] + y[i]])
WMul(x, y) == WCarry(W(x[1]*y[1], x[1]*y[2] + x[2]*y[1], x[1]*y[3] + x[2]*y[2] + x[3]*y[1],
                     x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]))
RotL(x, n) ==
  LET q == n \div 8  r == n % 8
      y == [i \in 1..4 |-> x[((i - 1 + 4 - q) % 4) + 1]] IN
  [i \in 1..4 |-> ((y[i] * 2^r) % 256) + (y[((i - 1 + 3) % 4) + 1] \div 2^(8 - r))]
ShR(x, n) ==
  LET q == n \div 8  r == n % 8
      y == [i \in 1..5 |-> IF i + q <= 4 THEN x[i + q] ELSE 0] IN
  [i \in 1..4 |-> (y[i] \div 2^r) + ((y[i + 1] * 2^(8 - r)) % 256)]
C1 == W(81, 45, 158, 204)      \* cc9e2d51
C2 == W(147, 53, 135, 27)      \* 1b873593
N0 == W(100, 107, 84, 230)     \* e6546b64
F1 == W(107, 202, 235, 133)    \* 85ebca6b
F2 == W(53, 174, 178, 194)     \* c2b2ae35
Five == W(5, 0, 0, 0)
Scramble(k) == WMul(RotL(WMul(k, C1), 15), C2)
Mix(h, k) == WAdd(WMul(RotL(WXor(h, Scramble(k)), 13), Five), N0)
Final(h) ==
  LET a == WMul(WXor(h, ShR(h, 16)), F1)
      b == WMul(WXor(a, ShR(a, 13)), F2) IN WXor(b, ShR(b, 16))
RECURSIVE Body(_, _, _)
Body(d, i, h) == IF i + 3 > Len(d) THEN h ELSE Body(d, i + 4, Mix(h, SubSeq(d, i, i + 3)))
HashBytes(d) ==
  LET t == Len(d) % 4
      k == [j \in 1..4 |-> IF j <= t THEN d[Len(d) - t + j] ELSE 0]
      h == Body(d, 1, Zero)
      g == IF t = 0 THEN h ELSE WXor(h, Scramble(k)) IN
  Final(WXor(g, W(Len(d) % 256, (Len(d) \div 256) % 256, Len(d) \div 65536, 0)))
(* UTF-16 code units to UTF-8 *)
Hi(c) == c >= 55296 /\ c <= 56319
Lo(c) == c >= 56320 /\ c <= 57343
Enc(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8(_, _)
Utf8(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF Hi(t[i]) /\ i < Len(t) /\ Lo(t[i + 1])
       THEN Enc(65536 + (t[i] - 55296) * 1024 + (t[i + 1] - 56320)) \o Utf8(t, i + 2)
       ELSE Enc(t[i]) \o Utf8(t, i + 1)
Hash(t) == HashBytes(Utf8(t, 1))
(* remainder and quotient by 100 *)
RECURSIVE Div(_, _, _, _)
Div(w, i, q, r) == IF i = 0 THEN [q |-> q, r |-> r]
                   ELSE LET x == r * 256 + w[i] IN Div(w, i - 1, q * 256 + (x \div 100), x % 100)
Buckets(w) == Div(w, 4, 0, 0)
===============================================================================
