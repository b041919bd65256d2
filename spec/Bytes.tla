------------------------------- MODULE Bytes -------------------------------
(* Byte strings, 64-bit integers and proto3 base-128 varints.              *)
(*                                                                         *)
(* TLC integers have 32 bits, so a 64-bit quantity is a tuple of 8 bytes,  *)
(* least significant first (two's complement for signed ones).  A byte     *)
(* string is a sequence of 0..255.                                         *)
EXTENDS Integers, Sequences

Byte == 0..255
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* 2^k is P2[k+1].
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>

\* Evaluates a function with domain 1..n into a tuple.
Force(f) == f \o <<>>

\* A natural number below 2^31 as 8 bytes.
U8(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

\* Whether a 64-bit quantity is a natural number below 2^31, and that number.
Fits31(u) == u[5] = 0 /\ u[6] = 0 /\ u[7] = 0 /\ u[8] = 0 /\ u[4] < 128
ToNat(u) == u[1] + 256 * u[2] + 65536 * u[3] + 16777216 * u[4]

Negative(u) == u[8] >= 128

\* Bits 7g .. 7g+6.
Group(u, g) ==
  LET i == (7 * g) \div 8
      off == (7 * g) % 8
      hi == IF i < 7 THEN u[i + 2] * P2[9 - off] ELSE 0
  IN (u[i + 1] \div P2[off + 1] + hi) % 128

----------------------------------------------------------------------------
(* Varints *)

Uvarint(u) ==
  IF u[1] < 128 /\ u[2] = 0 /\ u[3] = 0 /\ u[4] = 0 /\ u[5] = 0 /\ u[6] = 0 /\ u[7] = 0 /\ u[8] = 0
  THEN <<u[1]>>
  ELSE LET g == Force([i \in 1..10 |-> Group(u, i - 1)])
           n == CHOOSE m \in 1..10 : g[m] # 0 /\ \A j \in (m + 1)..10 : g[j] = 0
       IN Force([i \in 1..n |-> IF i < n THEN g[i] + 128 ELSE g[i]])

UvarintN(n) == IF n < 128 THEN <<n>>
               ELSE IF n < 16384 THEN <<(n % 128) + 128, n \div 128>>
               ELSE Uvarint(U8(n))

UvarintSize(u) == Len(Uvarint(u))

\* (x << 1) and (x >> 1, logical), bitwise complement.
Shl1(u) == Force([i \in 1..8 |-> ((u[i] * 2) % 256) + (IF i > 1 THEN u[i - 1] \div 128 ELSE 0)])
Shr1(u) == Force([i \in 1..8 |-> (u[i] \div 2) + (IF i < 8 THEN (u[i + 1] % 2) * 128 ELSE 0)])
Not8(u) == Force([i \in 1..8 |-> 255 - u[i]])

ZigZag(u) == IF Negative(u) THEN Not8(Shl1(u)) ELSE Shl1(u)
UnZigZag(u) == IF u[1] % 2 = 1 THEN Not8(Shr1(u)) ELSE Shr1(u)

Varint(u) == Uvarint(ZigZag(u))

\* Reading a varint at the start of bz: the number of bytes it has (zero if
\* it is truncated, longer than ten bytes or beyond 64 bits) and its value.
\* It need not be minimal.
NoVarint == [n |-> 0, u |-> Zero8]

ReadUvarint(bz) ==
  IF Len(bz) = 0 THEN NoVarint
  ELSE IF bz[1] < 128 THEN [n |-> 1, u |-> <<bz[1], 0, 0, 0, 0, 0, 0, 0>>]
  ELSE LET lim == IF Len(bz) < 10 THEN Len(bz) ELSE 10
           ends == {i \in 2..lim : bz[i] < 128}
       IN IF ends = {} THEN NoVarint
          ELSE LET n == CHOOSE i \in ends : \A j \in ends : i <= j
               IN IF n = 10 /\ bz[10] > 1 THEN NoVarint
                  ELSE LET g == Force([i \in 1..12 |-> IF i <= n THEN bz[i] % 128 ELSE 0])
                           B(j) == LET q == (8 * j) \div 7
                                       off == (8 * j) % 7
                                   IN (g[q + 1] \div P2[off + 1] + g[q + 2] * P2[8 - off]
                                       + (IF off = 6 THEN g[q + 3] * 256 ELSE 0)) % 256
                       IN [n |-> n, u |-> Force([j \in 1..8 |-> B(j - 1)])]

----------------------------------------------------------------------------
(* Comparisons *)

\* Unsigned a < b, from the most significant byte.
RECURSIVE LtU(_, _, _)
LtU(a, b, i) == IF i = 0 THEN FALSE
                ELSE IF a[i] # b[i] THEN a[i] < b[i]
                ELSE LtU(a, b, i - 1)
FlipSign(u) == [u EXCEPT ![8] = (@ + 128) % 256]
ULess(a, b) == LtU(a, b, 8)
SLess(a, b) == LtU(FlipSign(a), FlipSign(b), 8)

\* A 64-bit quantity plus a natural number below 2^23 (unsigned, no overflow).
RECURSIVE AddR(_, _, _)
AddR(u, carry, i) == IF i > 8 \/ carry = 0 THEN u
                     ELSE AddR([u EXCEPT ![i] = (@ + carry) % 256], (u[i] + carry) \div 256, i + 1)
AddN(u, n) == AddR(u, n, 1)

\* Whether the signed / unsigned 64-bit quantity fits in n bytes (1, 2 or 4).
SFits(u, n) == \/ u[n] < 128 /\ \A i \in (n + 1)..8 : u[i] = 0
               \/ u[n] >= 128 /\ \A i \in (n + 1)..8 : u[i] = 255
UFits(u, n) == \A i \in (n + 1)..8 : u[i] = 0

\* Sign extension of the first n bytes.
SExt(b, n) == Force([i \in 1..8 |-> IF i <= n THEN b[i] ELSE IF b[n] >= 128 THEN 255 ELSE 0])
UExt(b, n) == Force([i \in 1..8 |-> IF i <= n THEN b[i] ELSE 0])

From(bz, i) == SubSeq(bz, i, Len(bz))
Drop(bz, n) == IF n = 0 THEN bz ELSE SubSeq(bz, n + 1, Len(bz))
Take(bz, n) == SubSeq(bz, 1, n)
HasPrefix(bz, p) == Len(bz) >= Len(p) /\ SubSeq(bz, 1, Len(p)) = p

\* Lexicographic order of byte strings (as of Go strings).
RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i]
                  ELSE LexLt(a, b, i + 1)
LexLess(a, b) == LexLt(a, b, 1)

\* Concatenation of a sequence of byte strings by halves.
RECURSIVE CatR(_, _, _)
CatR(s, i, j) == IF i > j THEN <<>>
                 ELSE IF i = j THEN s[i]
                 ELSE LET m == (i + j) \div 2 IN CatR(s, i, m) \o CatR(s, m + 1, j)
Cat(s) == CatR(s, 1, Len(s))
============================================================================
