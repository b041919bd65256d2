----------------------------- MODULE AminoJSON -----------------------------
(* The JSON encoding: the text of every value and the value of every text. *)
(*                                                                         *)
(* Texts are byte strings.  The decoder is specified on the tree of a text; *)
(* a node is [k, a, n]: its kind, where its text begins and the position    *)
(* after it; numbers have int (neither a fraction nor an exponent), arrays  *)
(* m (their items) and objects m (their members [k |-> key, v |-> node]).   *)
EXTENDS AminoBinary

TNull == <<110, 117, 108, 108>>
TTrue == <<116, 114, 117, 101>>
TFalse == <<102, 97, 108, 115, 101>>

----------------------------------------------------------------------------
(* Decimal numbers *)

\* Division of a sequence of bytes, most significant first, by a small number.
RECURSIVE DivR(_, _, _, _, _)
DivR(u, d, i, r, q) == IF i = 0 THEN [q |-> q, r |-> r]
                       ELSE LET x == r * 256 + u[i]
                            IN DivR(u, d, i - 1, x % d, [q EXCEPT ![i] = x \div d])
DivN(u, d) == DivR(u, d, Len(u), 0, u)

Digit(n) == 48 + n
\* n with exactly k digits.
RECURSIVE DigitsN(_, _)
DigitsN(n, k) == IF k = 0 THEN <<>> ELSE DigitsN(n \div 10, k - 1) \o <<Digit(n % 10)>>
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<Digit(n)>> ELSE DecN(n \div 10) \o <<Digit(n % 10)>>

RECURSIVE DecU(_)
DecU(u) == LET x == DivN(u, 10000)
           IN IF x.q = Zero8 THEN DecN(x.r) ELSE DecU(x.q) \o DigitsN(x.r, 4)
Neg8(u) == LET w == Not8(u) IN IF w = <<255, 255, 255, 255, 255, 255, 255, 255>> THEN Zero8 ELSE AddN(w, 1)
DecS(u) == IF Negative(u) THEN <<45>> \o DecU(Neg8(u)) ELSE DecU(u)

IsDigit(x) == x >= 48 /\ x <= 57

\* The value of up to 20 decimal digits, as 9 bytes.
Zero9 == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
RECURSIVE MulAdd(_, _, _, _)
MulAdd(u, m, carry, i) == IF i > 9 THEN u
                          ELSE LET x == u[i] * m + carry
                               IN MulAdd([u EXCEPT ![i] = x % 256], m, x \div 256, i + 1)
RECURSIVE Digits(_, _, _)
Digits(b, i, u) == IF i > Len(b) THEN u
                   ELSE IF i + 3 <= Len(b)
                   THEN Digits(b, i + 4, MulAdd(u, 10000, (b[i] - 48) * 1000 + (b[i + 1] - 48) * 100
                                                          + (b[i + 2] - 48) * 10 + b[i + 3] - 48, 1))
                   ELSE Digits(b, i + 1, MulAdd(u, 10, b[i] - 48, 1))

\* An integer literal as a number of the kind; the literal is -?(0|[1-9][0-9]*).
Size(k) == CASE k \in {"i8", "u8"} -> 1 [] k \in {"i16", "u16"} -> 2 [] k \in {"i32", "u32"} -> 4 [] OTHER -> 8
JVal(v) == [o |-> "ok", v |-> v]
IntOf(k, b) ==
  LET neg == b[1] = 45
      d == IF neg THEN Tail(b) ELSE b
      m == IF Len(d) > 20 THEN Zero9 ELSE Digits(d, 1, Zero9)
      u == SubSeq(m, 1, 8)
      over == Len(d) > 20 \/ m[9] # 0
  IN IF k \in UintKinds
     THEN IF neg \/ over \/ (Size(k) < 8 /\ ~UFits(u, Size(k))) THEN Rej ELSE JVal(u)
     ELSE LET s == IF neg THEN Neg8(u) ELSE u
              min == u = <<0, 0, 0, 0, 0, 0, 0, 128>>
          IN IF over \/ (Negative(u) /\ ~(neg /\ min)) \/ (Size(k) < 8 /\ ~SFits(s, Size(k))) THEN Rej
             ELSE JVal(s)

----------------------------------------------------------------------------
(* Times: RFC 3339 in UTC *)

RECURSIVE AddB(_, _, _, _)
AddB(u, w, carry, i) == IF i > 8 THEN u
                        ELSE LET x == u[i] + w[i] + carry
                             IN AddB([u EXCEPT ![i] = x % 256], w, x \div 256, i + 1)
Add8(u, w) == AddB(u, w, 0, 1)

\* Seconds from the first day of year 0 to 1970.
Year0 == <<0, 124, 116, 121, 14, 0, 0, 0>>            \* 62167219200
JTimeOk(v) == ~SLess(v[1], Neg8(Year0)) /\ SLess(v[1], MaxSeconds)

\* The date of a day counted from 0000-01-01, and back.
Date(d) ==
  LET z == d - 60 + 146097
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + (era * 400) - 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m,
      d |-> doy - ((153 * mp + 2) \div 5) + 1]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + DaysIn(y, m - 1)
\* Years 0..y-1: year 0 is a leap year.
DayOf(y, m, d) == (IF y = 0 THEN 0 ELSE 365 * y + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + 1)
                  + DaysBefore(y, m) + d - 1

RECURSIVE TrimZeros(_)
TrimZeros(b) == IF b[Len(b)] = 48 THEN TrimZeros(SubSeq(b, 1, Len(b) - 1)) ELSE b

TimeText(v) ==
  LET q == DivN(Add8(v[1], Year0), 86400)
      s == q.r
      x == Date(ToNat(q.q))
  IN <<34>> \o DigitsN(x.y, 4) \o <<45>> \o DigitsN(x.m, 2) \o <<45>> \o DigitsN(x.d, 2) \o <<84>>
     \o DigitsN(s \div 3600, 2) \o <<58>> \o DigitsN((s \div 60) % 60, 2) \o <<58>> \o DigitsN(s % 60, 2)
     \o (IF v[2] = 0 THEN <<>> ELSE <<46>> \o TrimZeros(DigitsN(v[2], 9))) \o <<90, 34>>

RECURSIVE NumAt(_, _, _)
NumAt(b, i, n) == IF n = 0 THEN 0 ELSE NumAt(b, i, n - 1) * 10 + b[i + n - 1] - 48
\* The text of a time, with its quotes: "2006-01-02T15:04:05.999999999Z",
\* where the fraction may have any number of digits, of which 9 count.  The
\* standard library also takes an hour of one digit and a comma for the dot.
TimeOf(b0) ==
  LET b == IF Len(b0) > 14 /\ b0[14] = 58 THEN SubSeq(b0, 1, 12) \o <<48>> \o From(b0, 13) ELSE b0
      n == Len(b)
      frac == n > 22
  IN IF n < 22 \/ b[1] # 34 \/ b[n] # 34 \/ b[n - 1] # 90 THEN Rej
     ELSE IF \E i \in {2, 3, 4, 5, 7, 8, 10, 11, 13, 14, 16, 17, 19, 20} : ~IsDigit(b[i]) THEN Rej
     ELSE IF b[6] # 45 \/ b[9] # 45 \/ b[12] # 84 \/ b[15] # 58 \/ b[18] # 58 THEN Rej
     ELSE IF frac /\ (b[21] \notin {44, 46} \/ n = 23 \/ \E i \in 22..(n - 2) : ~IsDigit(b[i])) THEN Rej
     ELSE LET y == NumAt(b, 2, 4)
              m == NumAt(b, 7, 2)
              d == NumAt(b, 10, 2)
              h == NumAt(b, 13, 2)
              mi == NumAt(b, 16, 2)
              s == NumAt(b, 19, 2)
              f == IF n - 23 > 9 THEN 9 ELSE n - 23
              ns == IF frac THEN NumAt(b, 22, f) ELSE 0
              scale == <<100000000, 10000000, 1000000, 100000, 10000, 1000, 100, 10, 1>>
          IN IF m < 1 \/ m > 12 THEN Rej
             ELSE IF d < 1 \/ d > DaysIn(y, m) \/ h > 23 \/ mi > 59 \/ s > 59 THEN Rej
             ELSE LET secs == SubSeq(MulAdd(U8(DayOf(y, m, d)) \o <<0>>, 86400, (h * 3600) + (mi * 60) + s, 1), 1, 8)
                  IN JVal(<<Add8(secs, Neg8(Year0)), IF frac THEN ns * scale[f] ELSE 0>>)

----------------------------------------------------------------------------
(* Strings *)

Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n

\* The number of bytes of the UTF-8 character at position i, 0 if there is none.
RuneLen(b, i, end) ==
  LET x == b[i]
      C(j, lo, hi) == i + j <= end /\ b[i + j] >= lo /\ b[i + j] <= hi
  IN CASE x < 128 -> 1
       [] x >= 194 /\ x <= 223 -> IF C(1, 128, 191) THEN 2 ELSE 0
       [] x = 224 -> IF C(1, 160, 191) /\ C(2, 128, 191) THEN 3 ELSE 0
       [] x = 237 -> IF C(1, 128, 159) /\ C(2, 128, 191) THEN 3 ELSE 0
       [] x >= 225 /\ x <= 239 -> IF C(1, 128, 191) /\ C(2, 128, 191) THEN 3 ELSE 0
       [] x = 240 -> IF C(1, 144, 191) /\ C(2, 128, 191) /\ C(3, 128, 191) THEN 4 ELSE 0
       [] x >= 241 /\ x <= 243 -> IF C(1, 128, 191) /\ C(2, 128, 191) /\ C(3, 128, 191) THEN 4 ELSE 0
       [] x = 244 -> IF C(1, 128, 143) /\ C(2, 128, 191) /\ C(3, 128, 191) THEN 4 ELSE 0
       [] OTHER -> 0

Plain(x, html) == x >= 32 /\ x < 128 /\ x # 34 /\ x # 92 /\ (html => x \notin {38, 60, 62})
U4(h) == <<92, 117>> \o h
RECURSIVE Esc(_, _, _, _)
Esc(s, i, html, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET x == s[i]
           n == RuneLen(s, i, Len(s))
       IN CASE Plain(x, html) -> Esc(s, i + 1, html, acc \o <<x>>)
            [] x \in {34, 92} -> Esc(s, i + 1, html, acc \o <<92, x>>)
            [] x = 8 -> Esc(s, i + 1, html, acc \o <<92, 98>>)
            [] x = 12 -> Esc(s, i + 1, html, acc \o <<92, 102>>)
            [] x = 10 -> Esc(s, i + 1, html, acc \o <<92, 110>>)
            [] x = 13 -> Esc(s, i + 1, html, acc \o <<92, 114>>)
            [] x = 9 -> Esc(s, i + 1, html, acc \o <<92, 116>>)
            [] x < 128 -> Esc(s, i + 1, html, acc \o U4(<<48, 48, Hex(x \div 16), Hex(x % 16)>>))
            [] n = 0 -> Esc(s, i + 1, html, acc \o <<239, 191, 189>>)
            [] x = 226 /\ s[i + 1] = 128 /\ s[i + 2] \in {168, 169} ->
                 Esc(s, i + 3, html, acc \o U4(<<50, 48, 50, Hex(s[i + 2] - 160)>>))
            [] OTHER -> Esc(s, i + n, html, acc \o SubSeq(s, i, i + n - 1))
StrText(s, html) == IF \A i \in 1..Len(s) : Plain(s[i], html) THEN <<34>> \o s \o <<34>>
                    ELSE <<34>> \o Esc(s, 1, html, <<>>) \o <<34>>

B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Text(b) ==
  LET n == Len(b)
      At(i) == IF i <= n THEN b[i] ELSE 0
      Quad(q) == LET i == 3 * q - 2
                 IN <<B64(b[i] \div 4), B64((b[i] % 4) * 16 + At(i + 1) \div 16),
                      IF i + 1 > n THEN 61 ELSE B64((At(i + 1) % 16) * 4 + At(i + 2) \div 64),
                      IF i + 2 > n THEN 61 ELSE B64(At(i + 2) % 64)>>
  IN <<34>> \o Cat(Force([q \in 1..((n + 2) \div 3) |-> Quad(q)])) \o <<34>>

B64Of(x) == IF x >= 65 /\ x <= 90 THEN x - 65 ELSE IF x >= 97 /\ x <= 122 THEN x - 71
            ELSE IF IsDigit(x) THEN x + 4 ELSE IF x = 43 THEN 62 ELSE IF x = 47 THEN 63 ELSE 64
B64Dec(s0) ==
  LET s == SelectSeq(s0, LAMBDA x : x \notin {10, 13})
      n == Len(s)
      pad == IF n >= 2 /\ s[n] = 61 THEN (IF s[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
      V(i) == IF i > n - pad THEN 0 ELSE B64Of(s[i])
      Three(q) == LET i == 4 * q - 3
                  IN <<V(i) * 4 + V(i + 1) \div 16, (V(i + 1) % 16) * 16 + V(i + 2) \div 4, (V(i + 2) % 4) * 64 + V(i + 3)>>
      all == Cat(Force([q \in 1..(n \div 4) |-> Three(q)]))
  IN IF n % 4 # 0 \/ \E i \in 1..(n - pad) : B64Of(s[i]) = 64 THEN Rej
     ELSE JVal(SubSeq(all, 1, Len(all) - pad))

----------------------------------------------------------------------------
(* The tree of a text *)

WS == {9, 10, 13, 32}
RECURSIVE SkipWS(_, _)
SkipWS(b, i) == IF i <= Len(b) /\ b[i] \in WS THEN SkipWS(b, i + 1) ELSE i
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0

Bad == [k |-> "bad", a |-> 0, n |-> 0]

IsHex(x) == IsDigit(x) \/ (x >= 65 /\ x <= 70) \/ (x >= 97 /\ x <= 102)
HexOf(x) == IF IsDigit(x) THEN x - 48 ELSE IF x <= 70 THEN x - 55 ELSE x - 87

\* After the end of the string whose characters begin at i, or 0.
RECURSIVE StrEnd(_, _)
StrEnd(b, i) ==
  IF i > Len(b) THEN 0
  ELSE LET x == b[i]
       IN IF x = 34 THEN i + 1
          ELSE IF x < 32 THEN 0
          ELSE IF x # 92 THEN StrEnd(b, i + 1)
          ELSE LET y == At(b, i + 1)
               IN IF y = 117
                  THEN IF \A j \in 2..5 : IsHex(At(b, i + j)) THEN StrEnd(b, i + 6) ELSE 0
                  ELSE IF y \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrEnd(b, i + 2) ELSE 0

RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, i) == IF i <= Len(b) /\ IsDigit(b[i]) THEN DigitsEnd(b, i + 1) ELSE i
Num(b, a) ==
  LET i == IF b[a] = 45 THEN a + 1 ELSE a
      j == IF At(b, i) = 48 THEN i + 1 ELSE DigitsEnd(b, i)
      f == IF At(b, j) = 46 THEN DigitsEnd(b, j + 1) ELSE j
      exp == At(b, f) \in {69, 101}
      e0 == IF At(b, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      e == IF exp THEN DigitsEnd(b, e0) ELSE f
  IN IF j = i \/ f = j + 1 \/ (exp /\ e = e0) THEN Bad
     ELSE [k |-> "num", a |-> a, n |-> e, int |-> e = j]

Rune(r) == IF r < 128 THEN <<r>>
           ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
           ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
           ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
Replacement == <<239, 191, 189>>
CodeUnit(b, i) == (HexOf(b[i]) * 4096) + (HexOf(b[i + 1]) * 256) + (HexOf(b[i + 2]) * 16) + HexOf(b[i + 3])
RECURSIVE Unq(_, _, _, _)
Unq(b, i, end, acc) ==
  IF i > end THEN acc
  ELSE LET x == b[i]
           n == RuneLen(b, i, end)
       IN IF x # 92
          THEN IF n = 0 THEN Unq(b, i + 1, end, acc \o Replacement)
               ELSE Unq(b, i + n, end, acc \o SubSeq(b, i, i + n - 1))
          ELSE LET y == b[i + 1]
               IN CASE y = 98 -> Unq(b, i + 2, end, acc \o <<8>>)
                    [] y = 102 -> Unq(b, i + 2, end, acc \o <<12>>)
                    [] y = 110 -> Unq(b, i + 2, end, acc \o <<10>>)
                    [] y = 114 -> Unq(b, i + 2, end, acc \o <<13>>)
                    [] y = 116 -> Unq(b, i + 2, end, acc \o <<9>>)
                    [] y = 117 ->
                         LET r == CodeUnit(b, i + 2)
                             low == IF i + 11 <= end /\ b[i + 6] = 92 /\ b[i + 7] = 117 THEN CodeUnit(b, i + 8) ELSE 0
                         IN IF r < 55296 \/ r > 57343 THEN Unq(b, i + 6, end, acc \o Rune(r))
                            ELSE IF r < 56320 /\ low >= 56320 /\ low <= 57343
                            THEN Unq(b, i + 12, end, acc \o Rune(((r - 55296) * 1024) + (low - 56320) + 65536))
                            ELSE Unq(b, i + 6, end, acc \o Replacement)
                    [] OTHER -> Unq(b, i + 2, end, acc \o <<y>>)
\* What a string literal, from its first to its last quote, denotes.
Unquote(b, a, n) ==
  IF \A i \in (a + 1)..(n - 2) : b[i] # 92 /\ b[i] < 128 THEN SubSeq(b, a + 1, n - 2)
  ELSE Unq(b, a + 1, n - 2, <<>>)

Literal(b, a, k, word) == IF SubSeq(b, a, a + Len(word) - 1) = word
                          THEN [k |-> k, a |-> a, n |-> a + Len(word)] ELSE Bad

RECURSIVE Parse(_, _), Items(_, _, _, _), Members(_, _, _, _)
Parse(b, i) ==
  LET x == At(b, i)
  IN CASE x = 110 -> IF Len(b) >= i + 3 THEN Literal(b, i, "null", TNull) ELSE Bad
       [] x = 116 -> IF Len(b) >= i + 3 THEN Literal(b, i, "true", TTrue) ELSE Bad
       [] x = 102 -> IF Len(b) >= i + 4 THEN Literal(b, i, "false", TFalse) ELSE Bad
       [] x = 34 -> LET n == StrEnd(b, i + 1) IN IF n = 0 THEN Bad ELSE [k |-> "str", a |-> i, n |-> n]
       [] x = 45 \/ IsDigit(x) -> Num(b, i)
       [] x = 91 -> LET j == SkipWS(b, i + 1)
                    IN IF At(b, j) = 93 THEN [k |-> "arr", a |-> i, n |-> j + 1, m |-> <<>>]
                       ELSE Items(b, i, j, <<>>)
       [] x = 123 -> LET j == SkipWS(b, i + 1)
                     IN IF At(b, j) = 125 THEN [k |-> "obj", a |-> i, n |-> j + 1, m |-> <<>>]
                        ELSE Members(b, i, j, <<>>)
       [] OTHER -> Bad
Items(b, a, i, acc) ==
  LET v == Parse(b, i)
      j == SkipWS(b, v.n)
  IN IF v.k = "bad" THEN Bad
     ELSE IF At(b, j) = 44 THEN Items(b, a, SkipWS(b, j + 1), Append(acc, v))
     ELSE IF At(b, j) = 93 THEN [k |-> "arr", a |-> a, n |-> j + 1, m |-> Append(acc, v)]
     ELSE Bad
Members(b, a, i, acc) ==
  LET s == IF At(b, i) = 34 THEN StrEnd(b, i + 1) ELSE 0
      c == SkipWS(b, s)
      v == Parse(b, SkipWS(b, c + 1))
      j == SkipWS(b, v.n)
      e == [k |-> Unquote(b, i, s), v |-> v, ka |-> i, kn |-> s - 1]
  IN IF s = 0 THEN Bad
     ELSE IF At(b, c) # 58 THEN Bad
     ELSE IF v.k = "bad" THEN Bad
     ELSE IF At(b, j) = 44 THEN Members(b, a, SkipWS(b, j + 1), Append(acc, e))
     ELSE IF At(b, j) = 125 THEN [k |-> "obj", a |-> a, n |-> j + 1, m |-> Append(acc, e)]
     ELSE Bad

Tree(b) == LET v == Parse(b, SkipWS(b, 1))
           IN IF v.k # "bad" /\ SkipWS(b, v.n) = Len(b) + 1 THEN v ELSE Bad

RawText(b, nd) == SubSeq(b, nd.a, nd.n - 1)
StrOf(b, nd) == Unquote(b, nd.a, nd.n)

----------------------------------------------------------------------------
(* Encoding *)

\* Whether a field tagged omitempty is left out.
RECURSIVE StrictZero(_, _)
StrictZero(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN (IF ty.k = "str" \/ (ty.k = "slice" /\ K(ty.repr) # "slice") THEN IsZero(ty.repr, v) ELSE StrictZero(ty.repr, v))
     ELSE CASE ty.k = "struct" -> \A i \in 1..Len(ty.f) : Kept(ty.f[i]) => StrictZero(ty.f[i].t, v[i])
            [] ty.k = "array" /\ ~IsBytes(t) -> \A i \in 1..ty.n : StrictZero(ty.e, v[i])
            [] ty.k \in {"f32", "f64"} -> (Len(v) = 4 /\ v \in {<<0, 0, 0, 0>>, <<0, 0, 0, 128>>})
                                          \/ (Len(v) = 8 /\ v \in {Zero8, <<0, 0, 0, 0, 0, 0, 0, 128>>})
            [] OTHER -> v = ZeroV(t)
NoElems(t, v) ==
  CASE K(t) = "str" -> IsZero(t, v)
    [] K(t) = "slice" -> IsZero(t, v)
    [] K(t) = "array" -> Types[t].n = 0
    [] OTHER -> FALSE
IsEmptyJ(t, v) ==
  IF K(t) # "ptr" THEN StrictZero(t, v) \/ NoElems(t, v)
  ELSE LET d == Deref(t, v) IN IF d[1] THEN NoElems(Base(t), d[2]) ELSE TRUE

\* The texts of floats are those of the standard library; they come with the
\* events: fl is a sequence of [k, v, s].
FloatText(fl, k, v) == LET q == CHOOSE i \in 1..Len(fl) : fl[i].k = k /\ fl[i].v = v IN fl[q].s
Finite(k, v) == IF k = "f32" THEN ~(v[4] % 128 = 127 /\ v[3] >= 128) ELSE ~(v[8] % 128 = 127 /\ v[7] >= 240)

Sep(l) == Force([q \in 1..(2 * Len(l) - 1) |-> IF q % 2 = 1 THEN l[(q + 1) \div 2] ELSE <<44>>])
Joined(l) == IF Len(l) = 0 THEN <<>> ELSE Cat(Sep(l))
Wrapped(name, text) == <<123, 34, 116, 121, 112, 101, 34, 58>> \o StrText(name, FALSE)
                       \o <<44, 34, 118, 97, 108, 117, 101, 34, 58>> \o text \o <<125>>
NameOf(c, t) == Names[Codecs[c].cons[ConOf(c, t)].n]

RECURSIVE EncJ(_, _, _, _), EncJList(_, _, _, _, _, _), EncJFields(_, _, _, _, _), EncJMap(_, _, _, _, _, _)
\* x is [c |-> codec, fl |-> texts of floats]; uns: floats are permitted.
EncJ(x, t, v, uns) ==
  LET ty == Types[t]
  IN IF ty.jm = 1 THEN Enc(StrText(v[1], TRUE))
     ELSE IF ty.repr # 0
     THEN IF \E q \in 1..Len(ty.merr) : ty.merr[q] = v THEN Rej
          ELSE IF ~TypeOkTab[x.c][Base(ty.repr)] THEN Rej
          ELSE EncJ(x, ty.repr, v, uns)
     ELSE CASE ty.k = "ptr" -> IF v = <<>> THEN Enc(TNull) ELSE EncJ(x, ty.e, v[1], uns)
            [] ty.k = "time" -> IF JTimeOk(v) THEN Enc(TimeText(v)) ELSE Rej
            [] ty.k \in {"i64", "int"} -> Enc(<<34>> \o DecS(v) \o <<34>>)
            [] ty.k \in {"u64", "uint"} -> Enc(<<34>> \o DecU(v) \o <<34>>)
            [] ty.k \in IntKinds -> Enc(DecS(v))
            [] ty.k \in UintKinds -> Enc(DecU(v))
            [] ty.k = "bool" -> Enc(IF v = 1 THEN TTrue ELSE TFalse)
            [] ty.k = "str" -> Enc(StrText(v, TRUE))
            [] ty.k \in {"f32", "f64"} -> IF uns /\ Finite(ty.k, v) THEN Enc(FloatText(x.fl, ty.k, v)) ELSE Rej
            [] ty.k = "iface" ->
                 IF v = <<>> THEN Enc(TNull)
                 ELSE IF v[1].d < 0 \/ ConOf(x.c, v[1].t) = 0 \/ ~TypeOkTab[x.c][v[1].t] THEN Rej
                 ELSE LET r == EncJ(x, v[1].t, v[1].v, uns)
                      IN IF IsOk(r) THEN Enc(Wrapped(NameOf(x.c, v[1].t), r.b)) ELSE Rej
            [] ty.k = "slice" /\ v = <<>> -> Enc(TNull)
            [] ty.k \in ListKinds ->
                 IF IsBytes(t) THEN Enc(B64Text(ListOf(t, v)))
                 ELSE IF ~TypeOkTab[x.c][Base(ty.e)] THEN Rej
                 ELSE EncJList(x, ty.e, ListOf(t, v), uns, 1, <<>>)
            [] ty.k = "struct" -> EncJFields(x, t, v, 1, <<>>)
            [] ty.k = "map" -> EncJMap(x, ty.e, IF v = <<>> THEN <<>> ELSE v[1], uns, 1, <<>>)
EncJList(x, et, l, uns, i, acc) ==
  IF i > Len(l) THEN Enc(<<91>> \o Joined(acc) \o <<93>>)
  ELSE LET r == EncJ(x, et, l[i], uns)
       IN IF IsOk(r) THEN EncJList(x, et, l, uns, i + 1, Append(acc, r.b)) ELSE Rej
EncJFields(x, t, v, j, acc) ==
  IF j > Len(Fields(t)) THEN Enc(<<123>> \o Joined(acc) \o <<125>>)
  ELSE LET f == Fields(t)[j]
       IN IF ~TypeOkTab[x.c][f.b] THEN Rej
          ELSE IF f.om /\ IsEmptyJ(f.t, v[f.i]) THEN EncJFields(x, t, v, j + 1, acc)
          ELSE LET r == EncJ(x, f.t, v[f.i], f.o.uns)
               IN IF IsOk(r) THEN EncJFields(x, t, v, j + 1, Append(acc, StrText(f.jn, TRUE) \o <<58>> \o r.b))
                  ELSE Rej
EncJMap(x, et, l, uns, i, acc) ==
  IF i > Len(l) THEN Enc(<<123>> \o Joined(acc) \o <<125>>)
  ELSE IF Deref(et, l[i][2])[1] /\ ~TypeOkTab[x.c][Base(et)] THEN Rej
  ELSE LET r == EncJ(x, et, l[i][2], uns)
       IN IF IsOk(r) THEN EncJMap(x, et, l, uns, i + 1, Append(acc, StrText(l[i][1], TRUE) \o <<58>> \o r.b))
          ELSE Rej

\* A value at top level.
EncJTop(c, t, v, fl) ==
  IF ~TypeOkTab[c][Base(t)] THEN Rej
  ELSE LET r == EncJ([c |-> c, fl |-> fl], t, v, FALSE)
       IN IF IsOk(r) /\ ConOf(c, Base(t)) # 0 THEN Enc(Wrapped(NameOf(c, Base(t)), r.b)) ELSE r

\* The indented form of a text.
RECURSIVE Times(_, _), Indented(_, _, _, _, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Indented(b, nd, prefix, indent, depth) ==
  LET nl(d) == <<10>> \o prefix \o Times(indent, d)
  IN IF nd.k \notin {"arr", "obj"} THEN RawText(b, nd)
     ELSE IF nd.m = <<>> THEN (IF nd.k = "arr" THEN <<91, 93>> ELSE <<123, 125>>)
     ELSE LET open == IF nd.k = "arr" THEN <<91>> ELSE <<123>>
              close == IF nd.k = "arr" THEN <<93>> ELSE <<125>>
              one(q) == IF nd.k = "arr" THEN Indented(b, nd.m[q], prefix, indent, depth + 1)
                        ELSE SubSeq(b, nd.m[q].ka, nd.m[q].kn) \o <<58, 32>>
                             \o Indented(b, nd.m[q].v, prefix, indent, depth + 1)
          IN open \o Cat(Force([q \in 1..Len(nd.m) |->
                       (IF q > 1 THEN <<44>> ELSE <<>>) \o nl(depth + 1) \o one(q)])) \o nl(depth) \o close

----------------------------------------------------------------------------
(* Decoding *)

\* The last member with the key, or 0.
RECURSIVE LastKey(_, _, _)
LastKey(m, key, i) == IF i = 0 THEN 0 ELSE IF m[i].k = key THEN i ELSE LastKey(m, key, i - 1)

Lower(b) == Force([i \in 1..Len(b) |-> IF b[i] >= 65 /\ b[i] <= 90 THEN b[i] + 32 ELSE b[i]])
KType == <<116, 121, 112, 101>>
KValue == <<118, 97, 108, 117, 101>>

\* The wrapper of a registered value: its name and the node of the value.
Wrapper(b, nd) ==
  IF nd.k # "obj" THEN Rej
  ELSE LET ty == {i \in 1..Len(nd.m) : Lower(nd.m[i].k) = KType}
           va == {i \in 1..Len(nd.m) : Lower(nd.m[i].k) = KValue}
           named == {i \in ty : nd.m[i].v.k = "str"}
           Latest(s) == CHOOSE i \in s : \A j \in s : j <= i
       IN IF \E i \in ty : nd.m[i].v.k \notin {"str", "null"} THEN Rej
          ELSE IF named = {} \/ va = {} THEN Rej
          ELSE LET name == StrOf(b, nd.m[Latest(named)].v)
               IN IF name = <<>> THEN Rej ELSE [o |-> "ok", name |-> name, v |-> nd.m[Latest(va)].v]

\* The registration of a name, or 0.
ByName(c, name) == LET s == {i \in 1..Len(Codecs[c].cons) : Names[Codecs[c].cons[i].n] = name}
                   IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

\* The text between the quotes of a 64-bit integer.
QuotedInt(k, raw) ==
  LET s == SubSeq(raw, 2, Len(raw) - 1)
      nd == Tree(s)
  IN IF Len(raw) < 2 \/ raw[1] # 34 \/ raw[Len(raw)] # 34 THEN Rej
     ELSE IF nd.k = "null" THEN JVal(Zero8)
     ELSE IF nd.k # "num" THEN Rej
     ELSE IF ~nd.int THEN Rej
     ELSE IntOf(k, RawText(s, nd))

FloatOf(fl, k, raw) == LET q == CHOOSE i \in 1..Len(fl) : fl[i].k = k /\ fl[i].s = raw
                       IN IF fl[q].v = <<>> THEN Rej ELSE JVal(fl[q].v)

\* A list of bytes: base64, or an array of numbers.
RECURSIVE ByteItems(_, _, _, _)
ByteItems(b, m, i, acc) ==
  IF i > Len(m) THEN JVal(acc)
  ELSE IF m[i].k = "null" THEN ByteItems(b, m, i + 1, Append(acc, 0))
  ELSE IF m[i].k # "num" THEN Rej
  ELSE IF ~m[i].int THEN Rej
  ELSE LET r == IntOf("u8", RawText(b, m[i])) IN IF IsOk(r) THEN ByteItems(b, m, i + 1, Append(acc, r.v[1])) ELSE Rej
ByteList(b, nd) == CASE nd.k = "null" -> JVal(<<>>)
                     [] nd.k = "str" -> B64Dec(StrOf(b, nd))
                     [] nd.k = "arr" -> ByteItems(b, nd.m, 1, <<>>)
                     [] OTHER -> Rej

Unmarshaled(t, r) == IF ~IsOk(r) THEN Rej
                     ELSE IF \E q \in 1..Len(Types[t].uerr) : Types[t].uerr[q] = r.v THEN Rej ELSE r

RECURSIVE DecJ(_, _, _, _, _, _), DecJItems(_, _, _, _, _, _, _), DecJFields(_, _, _, _, _, _), DecJMap(_, _, _, _, _, _)
\* x is [c, b, fl]; nd a node; tv what the target holds; ws: white space
\* surrounds the text (at top level only).
DecJ(x, t, nd, tv, uns, ws) ==
  LET ty == Types[t]
      raw == RawText(x.b, nd)
  IN IF nd.k = "null" /\ ~ws THEN JVal(ZeroV(t))
     ELSE IF ty.jm = 1
     THEN (IF nd.k = "str" THEN JVal(<<StrOf(x.b, nd)>>) ELSE IF nd.k = "null" THEN JVal(<<<<>>>>) ELSE Rej)
     ELSE IF ty.repr # 0
     THEN IF ~TypeOkTab[x.c][Base(ty.repr)] THEN Rej
          ELSE Unmarshaled(t, DecJ(x, ty.repr, nd, ZeroV(ty.repr), uns, ws))
     ELSE CASE ty.k = "ptr" ->
                 LET r == DecJ(x, ty.e, nd, IF tv = <<>> THEN ZeroV(ty.e) ELSE tv[1], uns, ws)
                 IN IF IsOk(r) THEN JVal(<<r.v>>) ELSE Rej
            [] ty.k = "time" -> IF ws \/ nd.k # "str" THEN Rej ELSE TimeOf(raw)
            [] ty.k \in {"i64", "u64", "int", "uint"} -> IF ws \/ nd.k # "str" THEN Rej ELSE QuotedInt(ty.k, raw)
            [] ty.k \in VarKinds -> IF nd.k = "null" THEN JVal(Zero8)
                                    ELSE IF nd.k # "num" THEN Rej
                                    ELSE IF ~nd.int THEN Rej ELSE IntOf(ty.k, raw)
            [] ty.k = "bool" -> CASE nd.k = "true" -> JVal(1) [] nd.k \in {"false", "null"} -> JVal(0) [] OTHER -> Rej
            [] ty.k = "str" -> IF nd.k = "str" THEN JVal(StrOf(x.b, nd)) ELSE IF nd.k = "null" THEN JVal(<<>>) ELSE Rej
            [] ty.k \in {"f32", "f64"} -> IF uns /\ nd.k = "num" THEN FloatOf(x.fl, ty.k, raw) ELSE Rej
            [] ty.k = "iface" ->
                 LET w == Wrapper(x.b, nd)
                 IN IF ~IsOk(w) THEN Rej
                    ELSE LET i == ByName(x.c, w.name)
                         IN IF i = 0 THEN Rej
                            ELSE LET u == Codecs[x.c].cons[i].t
                                     r == DecJ(x, u, w.v, ZeroV(u), uns, FALSE)
                                 IN IF ~Implements(x.c, i, t) \/ ~TypeOkTab[x.c][u] \/ ~IsOk(r) THEN Rej
                                    ELSE JVal(<<[t |-> u, d |-> Codecs[x.c].cons[i].ptr, v |-> r.v]>>)
            [] ty.k \in ListKinds /\ IsBytes(t) ->
                 LET r == ByteList(x.b, nd)
                 IN IF ~IsOk(r) THEN Rej
                    ELSE IF ty.k = "array" THEN (IF Len(r.v) = ty.n THEN r ELSE Rej)
                    ELSE IF r.v = <<>> THEN r ELSE JVal(<<r.v>>)
            [] ty.k \in ListKinds ->
                 IF ~TypeOkTab[x.c][Base(ty.e)] \/ nd.k \notin {"arr", "null"} THEN Rej
                 ELSE LET m == IF nd.k = "null" THEN <<>> ELSE nd.m
                      IN IF ty.k = "array"
                         THEN (IF Len(m) # ty.n THEN Rej ELSE DecJItems(x, ty.e, m, tv, uns, 1, <<>>))
                         ELSE LET z == ZeroV(ty.e)
                                  r == DecJItems(x, ty.e, m, Rep(z, Len(m)), uns, 1, <<>>)
                              IN IF ~IsOk(r) \/ m # <<>> THEN (IF IsOk(r) THEN JVal(<<r.v>>) ELSE Rej)
                                 ELSE JVal(<<>>)
            [] ty.k = "struct" ->
                 IF nd.k \notin {"obj", "null"} THEN Rej
                 ELSE DecJFields(x, t, IF nd.k = "null" THEN <<>> ELSE nd.m, tv, 1, tv)
            [] ty.k = "map" ->
                 IF nd.k \notin {"obj", "null"} \/ ~TypeOkTab[x.c][Base(ty.e)] THEN Rej
                 ELSE LET m == IF nd.k = "null" THEN <<>> ELSE nd.m
                      IN DecJMap(x, ty.e, m, {q \in 1..Len(m) : LastKey(m, m[q].k, Len(m)) = q}, uns, <<>>)
DecJItems(x, et, m, tv, uns, i, acc) ==
  IF i > Len(m) THEN JVal(acc)
  ELSE LET r == DecJ(x, et, m[i], tv[i], uns, FALSE)
       IN IF IsOk(r) THEN DecJItems(x, et, m, tv, uns, i + 1, Append(acc, r.v)) ELSE Rej
DecJFields(x, t, m, tv, j, acc) ==
  IF j > Len(Fields(t)) THEN JVal(acc)
  ELSE LET f == Fields(t)[j]
           q == LastKey(m, f.jn, Len(m))
       IN IF ~TypeOkTab[x.c][f.b] THEN Rej
          ELSE IF q = 0
          THEN DecJFields(x, t, m, tv, j + 1, IF f.om THEN acc ELSE [acc EXCEPT ![f.i] = ZeroV(f.t)])
          ELSE LET r == DecJ(x, f.t, m[q].v, tv[f.i], f.o.uns, FALSE)
               IN IF IsOk(r) THEN DecJFields(x, t, m, tv, j + 1, [acc EXCEPT ![f.i] = r.v]) ELSE Rej
\* The entries in the order of their keys.
DecJMap(x, et, m, qs, uns, acc) ==
  IF qs = {} THEN JVal(<<acc>>)
  ELSE LET q == CHOOSE i \in qs : \A j \in qs : i = j \/ LexLess(m[i].k, m[j].k)
           r == DecJ(x, et, m[q].v, ZeroV(et), uns, FALSE)
       IN IF IsOk(r) THEN DecJMap(x, et, m, qs \ {q}, uns, Append(acc, <<m[q].k, r.v>>)) ELSE Rej

\* Behind pointers and representations.
RECURSIVE Bottom(_)
Bottom(t) == IF K(t) = "ptr" THEN Bottom(Types[t].e)
             ELSE IF Types[t].repr # 0 THEN Bottom(Types[t].repr) ELSE t

\* Top level: a text which is no JSON is still read when the target takes the
\* characters between two quotes for themselves.
DecJTop(c, t, b, tv, fl) ==
  LET x == [c |-> c, b |-> b, fl |-> fl]
      nd == Tree(b)
      u == Base(t)
      w == Wrapper(b, nd)
      n == Len(b)
  IN IF b = <<>> \/ ~TypeOkTab[c][u] THEN Rej
     ELSE IF ConOf(c, u) # 0
     THEN IF nd.k = "bad" THEN Rej
          ELSE IF ~IsOk(w) THEN Rej
          ELSE IF w.name # NameOf(c, u) THEN Rej
          ELSE DecJ(x, t, w.v, tv, FALSE, FALSE)
     ELSE LET q == IF nd.k # "bad" THEN nd
                   ELSE IF n >= 2 /\ b[1] = 34 /\ b[n] = 34 /\ K(Bottom(t)) \in {"i64", "int", "u64", "uint"}
                   THEN [k |-> "str", a |-> 1, n |-> n + 1]
                   ELSE Bad
          IN IF q.k = "bad" THEN Rej
             ELSE DecJ(x, t, q, tv, FALSE, q.a # 1 \/ q.n # n + 1)

----------------------------------------------------------------------------
(* What a value is after encoding and decoding *)

\* Whether its text is null.
RECURSIVE NullText(_, _)
NullText(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN NullText(ty.repr, v)
     ELSE CASE ty.k = "ptr" -> v = <<>> \/ NullText(ty.e, v[1])
            [] ty.k \in {"slice", "iface"} -> v = <<>>
            [] OTHER -> FALSE

RECURSIVE Norm(_, _, _)
Norm(c, t, v) ==
  LET ty == Types[t]
  IN IF ty.jm = 1 THEN v
     ELSE IF ty.repr # 0 THEN Norm(c, ty.repr, v)
     ELSE CASE ty.k = "ptr" -> IF NullText(t, v) THEN <<>> ELSE <<Norm(c, ty.e, v[1])>>
            [] ty.k = "slice" ->
                 IF v = <<>> THEN v
                 ELSE IF v[1] = <<>> THEN <<>>
                 ELSE IF IsBytes(t) THEN v
                 ELSE <<Force([q \in 1..Len(v[1]) |-> Norm(c, ty.e, v[1][q])])>>
            [] ty.k = "array" -> IF IsBytes(t) THEN v ELSE Force([q \in 1..Len(v) |-> Norm(c, ty.e, v[q])])
            [] ty.k = "struct" ->
                 LET fs == Fields(t)
                     omitted == {fs[j].i : j \in {j \in 1..Len(fs) : fs[j].om /\ IsEmptyJ(fs[j].t, v[fs[j].i])}}
                 IN Force([i \in 1..Len(ty.f) |->
                      IF ~Kept(ty.f[i]) THEN <<>>
                      ELSE IF i \in omitted THEN ZeroV(ty.f[i].t)
                      ELSE Norm(c, ty.f[i].t, v[i])])
            [] ty.k = "iface" ->
                 IF v = <<>> THEN v
                 ELSE <<[t |-> v[1].t, d |-> Codecs[c].cons[ConOf(c, v[1].t)].ptr, v |-> Norm(c, v[1].t, v[1].v)]>>
            [] ty.k = "map" -> IF v = <<>> THEN <<<<>>>>
                               ELSE <<Force([q \in 1..Len(v[1]) |-> <<v[1][q][1], Norm(c, ty.e, v[1][q][2])>>])>>
            [] OTHER -> v

\* Equality; in representations empty lists are no different from nil.
RECURSIVE JEq(_, _, _)
JEq(t, v, w) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN Eq(ty.repr, v, w)
     ELSE CASE ty.k = "ptr" -> IF v = <<>> \/ w = <<>> THEN v = w ELSE JEq(ty.e, v[1], w[1])
            [] ty.k = "slice" /\ ~IsBytes(t) ->
                 IF v = <<>> \/ w = <<>> THEN v = w
                 ELSE Len(v[1]) = Len(w[1]) /\ \A i \in 1..Len(v[1]) : JEq(ty.e, v[1][i], w[1][i])
            [] ty.k = "array" /\ ~IsBytes(t) -> \A i \in 1..ty.n : JEq(ty.e, v[i], w[i])
            [] ty.k = "struct" -> \A i \in 1..Len(ty.f) : IF Kept(ty.f[i]) THEN JEq(ty.f[i].t, v[i], w[i])
                                                          ELSE w[i] = <<>>
            [] ty.k = "iface" -> IF v = <<>> \/ w = <<>> THEN v = w
                                 ELSE v[1].t = w[1].t /\ v[1].d = w[1].d /\ JEq(v[1].t, v[1].v, w[1].v)
            [] ty.k = "map" -> IF v = <<>> \/ w = <<>> THEN v = w
                               ELSE /\ Len(v[1]) = Len(w[1])
                                    /\ \A i \in 1..Len(v[1]) : /\ v[1][i][1] = w[1][i][1]
                                                               /\ JEq(ty.e, v[1][i][2], w[1][i][2])
            [] OTHER -> v = w
=============================================================================
