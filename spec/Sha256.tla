------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 (FIPS 180-4).  A 32-bit word is a pair <<high, low>> of 16-bit   *)
(* halves, because TLC integers have 32 bits with a sign.                   *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

LOCAL H0 == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>

LOCAL K == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>,
  <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
  <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
  <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
  <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
  <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>,
  <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
  <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
  <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
  <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
  <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
  <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
  <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>
>>

LOCAL Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL Inv(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL Add2(a, b) == LET l == a[2] + b[2]
                        h == a[1] + b[1] + l \div 65536
                    IN <<h % 65536, l % 65536>>
LOCAL Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* Logical right shift and rotation by n < 32.
LOCAL ShrS(a, n) == <<a[1] \div Pow[n + 1], (a[2] \div Pow[n + 1]) + (a[1] % Pow[n + 1]) * Pow[17 - n]>>
LOCAL RotS(a, n) == <<(a[1] \div Pow[n + 1]) + (a[2] % Pow[n + 1]) * Pow[17 - n],
                      (a[2] \div Pow[n + 1]) + (a[1] % Pow[n + 1]) * Pow[17 - n]>>
LOCAL Rot(a, n) == IF n < 16 THEN RotS(a, n)
                   ELSE IF n = 16 THEN <<a[2], a[1]>>
                   ELSE RotS(<<a[2], a[1]>>, n - 16)

LOCAL S0(a) == Xor2(Xor2(Rot(a, 2), Rot(a, 13)), Rot(a, 22))
LOCAL S1(a) == Xor2(Xor2(Rot(a, 6), Rot(a, 11)), Rot(a, 25))
LOCAL s0(a) == Xor2(Xor2(Rot(a, 7), Rot(a, 18)), ShrS(a, 3))
LOCAL s1(a) == Xor2(Xor2(Rot(a, 17), Rot(a, 19)), ShrS(a, 10))
LOCAL Ch(x, y, z) == Xor2(And2(x, y), And2(Inv(x), z))
LOCAL Maj(x, y, z) == Xor2(Xor2(And2(x, y), And2(x, z)), And2(y, z))

\* The message schedule.
RECURSIVE Sched(_)
LOCAL Sched(w) ==
  IF Len(w) = 64 THEN w
  ELSE LET t == Len(w) + 1
       IN Sched(Append(w, Add2(Add2(s1(w[t - 2]), w[t - 7]), Add2(s0(w[t - 15]), w[t - 16]))))

LOCAL Round(h, kw) ==
  LET t1 == Add2(Add2(Add2(h[8], S1(h[5])), Ch(h[5], h[6], h[7])), kw)
      t2 == Add2(S0(h[1]), Maj(h[1], h[2], h[3]))
  IN <<Add2(t1, t2), h[1], h[2], h[3], Add2(h[4], t1), h[5], h[6], h[7]>>

RECURSIVE Rounds(_, _, _)
LOCAL Rounds(h, kw, i) == IF i > 64 THEN h ELSE Rounds(Round(h, kw[i]), kw, i + 1)

LOCAL Block(h, b) ==
  LET w == Sched([i \in 1..16 |-> <<b[4*i-3] * 256 + b[4*i-2], b[4*i-1] * 256 + b[4*i]>>] \o <<>>)
      r == Rounds(h, [i \in 1..64 |-> Add2(K[i], w[i])] \o <<>>, 1)
  IN [i \in 1..8 |-> Add2(h[i], r[i])] \o <<>>

RECURSIVE Blocks(_, _)
LOCAL Blocks(h, m) == IF Len(m) = 0 THEN h
                      ELSE Blocks(Block(h, SubSeq(m, 1, 64)), SubSeq(m, 65, Len(m)))

\* The 32 bytes of the digest of a byte string.
Sha256(m) ==
  LET n == Len(m)
      z == (55 - n) % 64
      bits == 8 * n
      pad == <<128>> \o ([i \in 1..z |-> 0] \o <<>>)
             \o <<0, 0, 0, 0, bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
      h == Blocks(H0, m \o pad)
  IN [i \in 1..32 |-> LET x == h[(i + 3) \div 4][IF (i - 1) % 4 < 2 THEN 1 ELSE 2]
                      IN IF (i - 1) % 2 = 0 THEN x \div 256 ELSE x % 256] \o <<>>
=============================================================================
