---------------------------- MODULE AminoBinary ----------------------------
(* The binary encoding and decoding of Amino, as the functions from values  *)
(* to bytes and from bytes to values that the codec's actions perform.      *)
EXTENDS AminoTypes

Rej == [o |-> "rej"]
Enc(b) == [o |-> "ok", b |-> b]
IsOk(r) == r.o = "ok"

Key(num, typ3) == Uvarint(
  \* num * 8 + typ3, for num < 2^29
  LET lo == (num % 32) * 8 + typ3
      hi == num \div 32
  IN <<lo, hi % 256, (hi \div 256) % 256, hi \div 65536, 0, 0, 0, 0>>)

LenPrefixed(b) == UvarintN(Len(b)) \o b

\* A list whose innermost elements are not bytes may not be nested.
RECURSIVE Innermost(_)
Innermost(t) == IF K(t) \in ListKinds THEN Innermost(Types[t].e) ELSE t
NestingOk(t) == K(Types[t].e) \in ListKinds => K(Innermost(t)) = "u8"

EncTime(v) ==
  IF v[1] # Zero8 /\ ~TimeInRange(v[1]) THEN Rej
  ELSE Enc((IF v[1] = Zero8 THEN <<>> ELSE <<8>> \o Uvarint(v[1]))
           \o (IF v[2] = 0 THEN <<>> ELSE <<16>> \o Uvarint(U8(v[2]))))

Wrap(r, bare) == IF IsOk(r) /\ ~bare THEN Enc(LenPrefixed(r.b)) ELSE r

RECURSIVE EncVal(_, _, _, _, _), EncFields(_, _, _, _, _), EncPacked(_, _, _, _, _, _),
          EncElems(_, _, _, _, _, _), EncElemsOf(_, _, _, _)

\* t: a type that is no pointer.  o: the options of the field that the value
\* is in.  bare: without the length prefix of structs, lists and interfaces.
EncVal(c, t, v, o, bare) ==
  LET ty == Types[t]
      k == ty.k
  IN IF ty.repr # 0
     THEN IF Has(ty.merr, v) \/ ~TypeOkTab[c][ty.repr] THEN Rej ELSE EncVal(c, ty.repr, v, o, bare)
     ELSE
     CASE k \in {"i64", "u64"} -> Enc(IF o.f64 THEN v ELSE Uvarint(v))
       [] k \in {"i32", "u32"} -> Enc(IF o.f32 THEN SubSeq(v, 1, 4) ELSE Uvarint(v))
       [] k \in {"i16", "i8"} -> Enc(Varint(v))
       [] k \in {"int", "u16", "u8", "uint"} -> Enc(Uvarint(v))
       [] k = "bool" -> Enc(<<v>>)
       [] k \in {"f32", "f64"} -> IF o.uns THEN Enc(v) ELSE Rej
       [] k = "str" -> Enc(LenPrefixed(v))
       [] k = "time" -> Wrap(EncTime(v), bare)
       [] k = "struct" -> Wrap(EncFields(c, t, v, 1, <<>>), bare)
       [] k \in ListKinds ->
            IF IsBytes(t) THEN Enc(LenPrefixed(ListOf(t, v)))
            ELSE IF ~NestingOk(t) THEN Rej
            ELSE LET u == Base(ty.e)
                     l == ListOf(t, v)
                 IN IF ~TypeOkTab[c][u] THEN Rej
                    ELSE IF Typ3(u, o) # 2 THEN Wrap(EncPacked(c, ty.e, l, o, 1, <<>>), bare)
                    ELSE Wrap(EncElems(c, ty.e, l, o, 1, <<>>), bare)
       [] k = "iface" ->
            IF v = <<>> THEN Enc(<<0>>)
            ELSE LET x == v[1]
                 IN IF x.d < 0 \/ ConOf(c, x.t) = 0 THEN Rej
                    ELSE LET r == EncVal(c, x.t, x.v, o, TRUE)
                             pre == (IF NeedDisamb(c, t, x.t) THEN <<0>> \o Disamb(c, x.t) ELSE <<>>)
                                    \o Prefix(c, x.t)
                         IN IF IsOk(r) THEN Wrap(Enc(pre \o r.b), bare) ELSE Rej
       [] OTHER -> Rej

\* Packed elements, one after the other; a nil pointer is written as zero.
EncPacked(c, et, l, o, i, acc) ==
  IF i > Len(l) THEN Enc(acc)
  ELSE LET d == Deref(et, l[i])
           r == EncVal(c, Base(et), IF d[1] THEN d[2] ELSE ZeroV(Base(et)), o, FALSE)
       IN IF IsOk(r) THEN EncPacked(c, et, l, o, i + 1, acc \o r.b) ELSE Rej

\* Elements as fields of their own.
EncElems(c, et, l, o, i, acc) ==
  IF i > Len(l) THEN Enc(acc)
  ELSE LET b == Base(et)
           d == Deref(et, l[i])
           key == Key(o.num, 2)
       IN IF ~d[1] \/ IsDefaultB(b, d[2])
          THEN IF K(et) = "ptr" /\ K(b) \in {"struct", "time"} /\ o.ee THEN Rej
               ELSE EncElems(c, et, l, o, i + 1, acc \o key \o <<0>>)
          ELSE LET r == EncVal(c, b, d[2], [o EXCEPT !.num = 1], FALSE)
               IN IF IsOk(r) THEN EncElems(c, et, l, o, i + 1, acc \o key \o r.b) ELSE Rej

EncFields(c, t, v, j, acc) ==
  IF j > Len(Fields(t)) THEN Enc(acc)
  ELSE LET f == Fields(t)[j]
           d == Deref(f.t, v[f.i])
           skip == IF d[1] THEN IsDefaultB(f.b, d[2]) /\ ~f.o.we ELSE TRUE
       IN IF ~TypeOkTab[c][f.b] THEN Rej
          ELSE IF skip THEN EncFields(c, t, v, j + 1, acc)
          ELSE IF f.unp
          THEN LET e == Types[f.t].e
                   r == IF TypeOkTab[c][Base(e)] THEN EncElemsOf(c, f.t, d[2], f.o) ELSE Rej
               IN IF IsOk(r) THEN EncFields(c, t, v, j + 1, acc \o r.b) ELSE Rej
          ELSE LET r == EncVal(c, f.b, d[2], f.o, FALSE)
               IN IF ~IsOk(r) THEN Rej
                  ELSE IF r.b = <<0>> /\ ~f.o.we /\ K(f.t) # "ptr"
                  THEN EncFields(c, t, v, j + 1, acc)
                  ELSE EncFields(c, t, v, j + 1, acc \o Key(f.o.num, Typ3(f.b, f.o)) \o r.b)

EncElemsOf(c, lt, v, o) == EncElems(c, Types[lt].e, ListOf(lt, v), o, 1, <<>>)

\* Structs and lists of structs are not wrapped at top level.
IsStructish(t) == \/ K(t) \in {"struct", "time"}
                  \/ K(t) \in ListKinds /\ K(Types[t].e) \in {"struct", "time"}

\* The encoding of a value at top level, without length prefix.
EncTop(c, t, v) ==
  LET b == Base(t)
      d == Deref(t, v)
  IN IF ~d[1] \/ ~TypeOkTab[c][b] THEN Rej
     ELSE LET r == IF IsStructish(b) THEN EncVal(c, b, d[2], NoOpts, TRUE)
                   ELSE LET e == EncVal(c, b, d[2], NoOpts, Typ3(b, NoOpts) # 2)
                        IN IF IsOk(e)
                           THEN IF e.b = <<0>> THEN Enc(<<>>)
                                ELSE Enc(Key(1, Typ3(b, NoOpts)) \o e.b)
                           ELSE Rej
          IN IF IsOk(r) /\ ConOf(c, b) # 0 THEN Enc(Prefix(c, b) \o r.b) ELSE r

EncTopLP(c, t, v) == LET r == EncTop(c, t, v) IN IF IsOk(r) THEN Enc(LenPrefixed(r.b)) ELSE r

----------------------------------------------------------------------------
(* Decoding.  A result is [o |-> "ok", v |-> value, n |-> bytes consumed].  *)

Dec(v, n) == [o |-> "ok", v |-> v, n |-> n]

\* A field key at the start of bz: [n, num, typ], n = 0 when there is none.
ReadKey(bz) ==
  LET r == ReadUvarint(bz)
  IN IF r.n = 0 \/ r.u[5] # 0 \/ r.u[6] # 0 \/ r.u[7] # 0 \/ r.u[8] # 0
     THEN [n |-> 0, num |-> 0, typ |-> 0]
     ELSE [n |-> r.n, typ |-> r.u[1] % 8,
           num |-> (r.u[1] \div 8) + r.u[2] * 32 + r.u[3] * 8192 + r.u[4] * 2097152]

\* A length-prefixed byte string: [n, len], n the size of the prefix or 0.
ReadLen(bz) ==
  LET r == ReadUvarint(bz)
  IN IF r.n = 0 \/ ~Fits31(r.u) THEN [n |-> 0, len |-> 0]
     ELSE IF ToNat(r.u) > Len(bz) - r.n THEN [n |-> 0, len |-> 0]
     ELSE [n |-> r.n, len |-> ToNat(r.u)]
Within(bz, l) == SubSeq(bz, l.n + 1, l.n + l.len)

\* The size of a field's payload, or -1.
PayloadSize(typ, bz) ==
  CASE typ = 0 -> LET r == ReadUvarint(bz) IN IF r.n = 0 THEN -1 ELSE r.n
    [] typ = 1 -> IF Len(bz) < 8 THEN -1 ELSE 8
    [] typ = 5 -> IF Len(bz) < 4 THEN -1 ELSE 4
    [] typ = 2 -> LET l == ReadLen(bz) IN IF l.n = 0 THEN -1 ELSE l.n + l.len
    [] OTHER -> -1

\* The seconds and nanoseconds of a time; it must fill bz.
DecTime(bz) ==
  IF bz = <<>> THEN Dec(Time1970, 0)
  ELSE LET k == ReadKey(bz)
       IN IF k.n = 0 \/ k.typ # 0 \/ k.num \notin {1, 2} THEN Rej
          ELSE LET s == IF k.num = 1 THEN ReadUvarint(Drop(bz, k.n)) ELSE [n |-> 1, u |-> Zero8]
                   rest == IF k.num = 1 THEN Drop(bz, k.n + s.n) ELSE bz
               IN IF s.n = 0 \/ ~TimeInRange(s.u) THEN Rej
                  ELSE IF rest = <<>> THEN Dec(<<s.u, 0>>, Len(bz))
                  ELSE LET k2 == ReadKey(rest)
                       IN IF k2.n = 0 \/ k2.num # 2 \/ k2.typ # 0 THEN Rej
                          ELSE LET ns == ReadUvarint(Drop(rest, k2.n))
                               IN IF ns.n = 0 \/ ~Fits31(ns.u) \/ k2.n + ns.n # Len(rest) THEN Rej
                                  ELSE IF ToNat(ns.u) > 999999999 THEN Rej
                                  ELSE Dec(<<s.u, ToNat(ns.u)>>, Len(bz))

DecFixed(bz, n, signed) ==
  IF Len(bz) < n THEN Rej ELSE Dec(IF signed THEN SExt(bz, n) ELSE UExt(bz, n), n)

DecUv(bz, ok(_)) == LET r == ReadUvarint(bz) IN IF r.n # 0 /\ ok(r.u) THEN Dec(r.u, r.n) ELSE Rej

\* The default value of such a type is written as nothing at top level.
OmittedIfDefault(t) ==
  /\ ~IsStructish(t)
  /\ \/ K(t) \in VarKinds \cup {"bool", "str", "slice"}
     \/ K(t) = "array" /\ (Types[t].n = 0 \/ Types[t].repr # 0)

\* Wraps a decoded value in the pointers of its type.
RECURSIVE InPtrs(_, _)
InPtrs(t, v) == IF K(t) = "ptr" THEN <<InPtrs(Types[t].e, v)>> ELSE v
\* What a target holds behind its pointers (zero if they are not set).
TargetOf(t, tv) == LET d == Deref(t, tv) IN IF d[1] THEN d[2] ELSE ZeroV(Base(t))

\* Go does not preserve signalling NaNs when it handles a float32.
Quiet(b) == IF b[4] % 128 = 127 /\ b[3] >= 128 /\ b[3] < 192 /\ (b[3] # 128 \/ b[2] # 0 \/ b[1] # 0)
            THEN [b EXCEPT ![3] = @ + 64] ELSE b

RECURSIVE DecVal(_, _, _, _, _, _), DecBase(_, _, _, _, _, _), DecFields(_, _, _, _, _, _, _, _),
          DecUnknown(_, _, _, _), DecIface(_, _, _, _, _), DecPackedS(_, _, _, _, _),
          DecPackedA(_, _, _, _, _, _, _), DecElemsS(_, _, _, _, _, _),
          DecElemsA(_, _, _, _, _, _, _, _), DecElem(_, _, _, _, _)

\* Decodes a value of type t from the start of bz.  tv: what the target
\* holds before.
DecVal(c, t, bz, o, bare, tv) ==
  LET r == DecBase(c, Base(t), bz, o, bare, TargetOf(t, tv))
  IN IF IsOk(r) /\ K(t) = "ptr" THEN Dec(InPtrs(t, r.v), r.n) ELSE r

\* Whatever has a length prefix is decoded from exactly that many bytes.
Delimited(bz, dec(_)) ==
  LET l == ReadLen(bz)
  IN IF l.n = 0 THEN Rej
     ELSE LET r == dec(Within(bz, l))
          IN IF IsOk(r) THEN IF r.n = l.len THEN Dec(r.v, l.n + l.len) ELSE Rej ELSE Rej

DecBase(c, t, bz, o, bare, tv) ==
  LET ty == Types[t]
      k == ty.k
  IN IF ty.repr # 0
     THEN IF ~TypeOkTab[c][ty.repr] THEN Rej
          ELSE LET r == DecBase(c, ty.repr, bz, o, bare, ZeroV(ty.repr))
               IN IF IsOk(r) THEN IF Has(ty.uerr, r.v) THEN Rej ELSE r ELSE Rej
     ELSE
     CASE k = "i64" -> IF o.f64 THEN DecFixed(bz, 8, TRUE) ELSE DecUv(bz, LAMBDA u : TRUE)
       [] k = "u64" -> IF o.f64 THEN DecFixed(bz, 8, FALSE) ELSE DecUv(bz, LAMBDA u : TRUE)
       [] k = "i32" -> IF o.f32 THEN DecFixed(bz, 4, TRUE) ELSE DecUv(bz, LAMBDA u : SFits(u, 4))
       [] k = "u32" -> IF o.f32 THEN DecFixed(bz, 4, FALSE) ELSE DecUv(bz, LAMBDA u : UFits(u, 4))
       [] k \in {"i16", "i8"} ->
            LET r == ReadUvarint(bz)
                u == UnZigZag(r.u)
            IN IF r.n # 0 /\ SFits(u, IF k = "i8" THEN 1 ELSE 2) THEN Dec(u, r.n) ELSE Rej
       [] k \in {"int", "uint"} -> DecUv(bz, LAMBDA u : TRUE)
       [] k = "u16" -> DecUv(bz, LAMBDA u : UFits(u, 2))
       [] k = "u8" -> DecUv(bz, LAMBDA u : UFits(u, 1))
       [] k = "bool" -> IF bz = <<>> THEN Rej ELSE IF bz[1] > 1 THEN Rej ELSE Dec(bz[1], 1)
       [] k = "f64" -> IF ~o.uns \/ Len(bz) < 8 THEN Rej ELSE Dec(SubSeq(bz, 1, 8), 8)
       [] k = "f32" -> IF ~o.uns \/ Len(bz) < 4 THEN Rej ELSE Dec(Quiet(SubSeq(bz, 1, 4)), 4)
       [] k = "str" -> LET l == ReadLen(bz) IN IF l.n = 0 THEN Rej ELSE Dec(Within(bz, l), l.n + l.len)
       [] k = "time" -> IF bare THEN DecTime(bz) ELSE Delimited(bz, DecTime)
       [] k = "struct" ->
            LET D(b) == DecFields(c, t, b, 1, 0, 0, Rep(<<>>, Len(ty.f)), tv)
            IN IF bare THEN D(bz) ELSE Delimited(bz, D)
       [] k \in ListKinds /\ IsBytes(t) ->
            LET l == ReadLen(bz)
            IN IF l.n = 0 THEN Rej
               ELSE IF k = "array" THEN IF l.len = ty.n THEN Dec(Within(bz, l), l.n + l.len) ELSE Rej
               ELSE Dec(IF l.len = 0 THEN <<>> ELSE <<Within(bz, l)>>, l.n + l.len)
       [] k \in ListKinds /\ ~IsBytes(t) ->
            LET u == Base(ty.e)
                D(b) == IF Typ3(u, o) # 2
                        THEN IF k = "slice" THEN DecPackedS(c, ty.e, b, o, <<>>)
                             ELSE DecPackedA(c, ty.e, ty.n, b, o, 1, tv)
                        ELSE IF k = "slice" THEN DecElemsS(c, ty.e, b, o, 0, <<>>)
                             ELSE DecElemsA(c, ty.e, ty.n, b, o, 0, 1, tv)
                E(b) == LET r == D(b)
                        IN IF IsOk(r) /\ k = "slice" THEN Dec(IF r.v = <<>> THEN <<>> ELSE <<r.v>>, r.n)
                           ELSE r
            IN IF ~TypeOkTab[c][u] THEN Rej
               ELSE IF bare THEN E(bz) ELSE Delimited(bz, E)
       [] k = "iface" ->
            IF tv # <<>> THEN Rej
            ELSE IF bare THEN DecIface(c, t, bz, o, TRUE)
            ELSE Delimited(bz, LAMBDA b : DecIface(c, t, b, o, FALSE))
       [] OTHER -> Rej

\* An interface value must fill bz.
DecIface(c, t, bz, o, bare) ==
  IF ~bare /\ bz = <<>> THEN Dec(<<>>, 0)
  ELSE IF Len(bz) < 4 \/ (bz[1] = 0 /\ Len(bz) < 8) THEN Rej
  ELSE
  LET dis == bz[1] = 0
      cons == IF dis THEN {i \in 1..Len(Codecs[c].cons) : /\ DisfixTab[c][i].d = SubSeq(bz, 2, 4)
                                                          /\ DisfixTab[c][i].p = SubSeq(bz, 5, 8)}
              ELSE WithPrefix(c, t, SubSeq(bz, 1, 4))
      rest == Drop(bz, IF dis THEN 8 ELSE 4)
  IN IF Cardinality(cons) # 1 THEN Rej
     ELSE
     LET i == CHOOSE x \in cons : TRUE
         u == Codecs[c].cons[i].t
         Val(x) == <<[t |-> u, d |-> Codecs[c].cons[i].ptr, v |-> x]>>
         Fin(r, n) == IF IsOk(r) THEN IF r.n = Len(rest) - n THEN Dec(Val(r.v), Len(bz)) ELSE Rej ELSE Rej
     IN IF ~Implements(c, i, t) THEN Rej
        ELSE IF ~bare \/ (IsStructish(u)) THEN Fin(DecBase(c, u, rest, o, TRUE, ZeroV(u)), 0)
        \* The rest is what MarshalBinaryBare wrote for the concrete value.
        ELSE IF rest = <<>>
        THEN IF OmittedIfDefault(u) THEN Dec(Val(ZeroV(u)), Len(bz)) ELSE Rej
        ELSE LET key == ReadKey(rest)
                 typ == Typ3(u, NoOpts)
             IN IF key.n = 0 \/ key.num # 1 \/ key.typ # typ THEN Rej
                ELSE Fin(DecBase(c, u, Drop(rest, key.n), o, typ # 2, ZeroV(u)), key.n)

DecPackedS(c, et, bz, o, acc) ==
  IF bz = <<>> THEN Dec(acc, 0)
  ELSE LET r == DecVal(c, et, bz, o, FALSE, ZeroV(et))
       IN IF ~IsOk(r) THEN Rej
          ELSE LET x == IF K(et) = "ptr" /\ IsDefault(et, r.v) THEN <<>> ELSE r.v
                   q == DecPackedS(c, et, Drop(bz, r.n), o, Append(acc, x))
               IN IF IsOk(q) THEN Dec(q.v, q.n + r.n) ELSE Rej

DecPackedA(c, et, n, bz, o, i, acc) ==
  IF i > n THEN IF bz = <<>> THEN Dec(acc, 0) ELSE Rej
  ELSE LET r == DecVal(c, et, bz, o, FALSE, acc[i])
       IN IF ~IsOk(r) THEN Rej
          ELSE LET x == IF K(et) = "ptr" /\ IsDefault(et, r.v) THEN <<>> ELSE r.v
                   q == DecPackedA(c, et, n, Drop(bz, r.n), o, i + 1, [acc EXCEPT ![i] = x])
               IN IF IsOk(q) THEN Dec(q.v, q.n + r.n) ELSE Rej

\* The value of one element of an unpacked list.
DecElem(c, et, bz, o, tv) ==
  IF bz # <<>> /\ bz[1] = 0 /\ ~(K(et) = "ptr" /\ K(Base(et)) \in {"struct", "time"} /\ o.ee)
  THEN Dec(DefaultV(et), 1)
  ELSE DecVal(c, et, bz, [o EXCEPT !.num = 1], FALSE, tv)

\* n: the bytes consumed so far.
DecElemsS(c, et, bz, o, n, acc) ==
  IF bz = <<>> THEN Dec(acc, n)
  ELSE LET key == ReadKey(bz)
       IN IF key.n = 0 \/ key.num < o.num THEN Rej
          ELSE IF key.num > o.num THEN Dec(acc, n)
          ELSE IF key.typ # 2 THEN Rej
          ELSE LET r == DecElem(c, et, Drop(bz, key.n), o, ZeroV(et))
               IN IF ~IsOk(r) THEN Rej
                  ELSE DecElemsS(c, et, Drop(bz, key.n + r.n), o, n + key.n + r.n, Append(acc, r.v))

DecElemsA(c, et, len, bz, o, n, i, acc) ==
  LET key == ReadKey(bz)
  IN IF i > len
     THEN IF bz = <<>> THEN Dec(acc, n)
          ELSE IF key.n = 0 \/ key.num <= o.num THEN Rej ELSE Dec(acc, n)
     ELSE IF key.n = 0 \/ key.num # o.num \/ key.typ # 2 THEN Rej
     ELSE LET r == DecElem(c, et, Drop(bz, key.n), o, acc[i])
          IN IF ~IsOk(r) THEN Rej
             ELSE DecElemsA(c, et, len, Drop(bz, key.n + r.n), o, n + key.n + r.n, i + 1,
                            [acc EXCEPT ![i] = r.v])

\* j: the next known field; last: the number of the last field that was read;
\* n: the bytes consumed; acc: the value.  Everything is consumed.
DecFields(c, t, bz, j, last, n, acc, tv) ==
  IF j > Len(Fields(t)) THEN (IF bz = <<>> THEN Dec(acc, n)
                              ELSE LET r == DecUnknown(bz, last, n, Len(Fields(t)))
                                   IN IF IsOk(r) THEN Dec(acc, r.n) ELSE Rej)
  ELSE LET f == Fields(t)[j]
           Next(b, l, m, x) == DecFields(c, t, b, j + 1, l, m, [acc EXCEPT ![f.i] = x], tv)
       IN IF ~TypeOkTab[c][f.b] THEN Rej
          ELSE IF bz = <<>> THEN Next(bz, last, n, DefaultV(f.t))
          ELSE IF f.unp
          THEN LET r == DecVal(c, f.t, bz, f.o, TRUE, tv[f.i])
               IN IF IsOk(r) THEN Next(Drop(bz, r.n), last, n + r.n, r.v) ELSE Rej
          ELSE LET key == ReadKey(bz)
               IN IF key.n = 0 THEN Rej
                  ELSE IF key.num > f.o.num THEN Next(bz, last, n, DefaultV(f.t))
                  ELSE IF key.num <= last \/ key.num # f.o.num \/ key.typ # Typ3(f.b, f.o) THEN Rej
                  ELSE LET r == DecVal(c, f.t, Drop(bz, key.n), f.o, FALSE, tv[f.i])
                       IN IF IsOk(r) THEN Next(Drop(bz, key.n + r.n), key.num, n + key.n + r.n, r.v)
                          ELSE Rej

\* Unknown fields at the end are skipped; they are in order and may repeat.
DecUnknown(bz, last, n, known) ==
  IF bz = <<>> THEN Dec(<<>>, n)
  ELSE LET key == ReadKey(bz)
           size == IF key.n = 0 THEN -1 ELSE PayloadSize(key.typ, Drop(bz, key.n))
       IN IF size < 0 \/ key.num < last \/ key.num = 0 \/ (key.num = last /\ key.num <= known) THEN Rej
          ELSE DecUnknown(Drop(bz, key.n + size), key.num, n + key.n + size, known)

\* Decoding of bytes into a variable of type t that holds tv.
DecTop(c, t, bz0, tv) ==
  LET b == Base(t)
      reg == ConOf(c, b) # 0
      bz == IF reg /\ Len(bz0) >= 4 THEN Drop(bz0, 4) ELSE bz0
      Fin(r, m) == IF IsOk(r) THEN IF r.n = m THEN Dec(r.v, Len(bz0)) ELSE Rej ELSE Rej
  IN IF ~TypeOkTab[c][b] THEN Rej
     ELSE IF reg /\ ~HasPrefix(bz0, Prefix(c, b)) THEN Rej
     ELSE IF bz = <<>> /\ OmittedIfDefault(b) THEN Dec(InPtrs(t, ZeroV(b)), Len(bz0))
     ELSE IF IsStructish(b) \/ bz = <<>> \/ K(b) = "iface"
     THEN Fin(DecVal(c, t, bz, NoOpts, TRUE, tv), Len(bz))
     ELSE LET key == ReadKey(bz)
              typ == Typ3(b, NoOpts)
          IN IF key.n = 0 \/ key.num # 1 \/ key.typ # typ THEN Rej
             ELSE Fin(DecVal(c, t, Drop(bz, key.n), NoOpts, typ # 2, tv), Len(bz) - key.n)

DecTopLP(c, t, bz, tv) ==
  LET l == ReadLen(bz)
  IN IF bz = <<>> \/ l.n = 0 THEN Rej
     ELSE IF l.n + l.len # Len(bz) THEN Rej
     ELSE LET r == DecTop(c, t, Drop(bz, l.n), tv) IN IF IsOk(r) THEN Dec(r.v, Len(bz)) ELSE Rej

----------------------------------------------------------------------------
(* What a value may become by encoding and decoding: the same up to the     *)
(* documented normalisations.  Same(c, t, v, w): w is v; SameElem: as an    *)
(* element of a list; SameField: as a field.                                *)

\* A value whose encoding is empty.
RECURSIVE IsBlank(_, _)
IsBlank(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN IsBlank(ty.repr, v)
     ELSE CASE ty.k = "time" -> v = Time1970
            [] ty.k = "struct" ->
                 \A j \in 1..Len(Fields(t)) :
                   LET f == Fields(t)[j]
                       d == Deref(f.t, v[f.i])
                   IN IF ~d[1] THEN TRUE
                      ELSE IF f.o.we /\ ~f.unp THEN FALSE
                      ELSE IF K(f.t) = "ptr" THEN IsDefaultB(f.b, d[2])
                      ELSE IsDefaultB(f.b, d[2]) \/ IsBlank(f.b, d[2])
            [] ty.k = "bool" -> v = 0
            [] ty.k = "array" -> ty.n = 0
            [] OTHER -> IsZero(t, v)

RECURSIVE Same(_, _, _, _), SameElem(_, _, _, _), SamePtr(_, _, _, _)

\* A pointer: may come back nil when what it points to is a default, and a
\* nil pointer to a time comes back as 1970.
SamePtr(c, t, v, w) ==
  LET d == Deref(t, v)
      e == Deref(t, w)
  IN IF ~d[1] THEN IF K(Base(t)) = "time" THEN w = <<>> \/ w = PtrTo(t, Time1970) ELSE ~e[1]
     ELSE IF ~e[1] THEN IsDefaultB(Base(t), d[2])
     ELSE Same(c, Base(t), d[2], e[2])

SameElem(c, t, v, w) ==
  IF K(t) # "ptr" THEN Same(c, t, v, w)
  ELSE LET b == Base(t)
           d == Deref(t, v)
           e == Deref(t, w)
           blank == IF d[1] THEN IsDefaultB(b, d[2]) \/ IsBlank(b, d[2]) ELSE TRUE
       IN \/ SamePtr(c, t, v, w)
          \/ blank /\ ~e[1]
          \/ blank /\ K(b) = "bool" /\ e[1] /\ e[2] = 0

Same(c, t, v, w) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN Same(c, ty.repr, v, w)
     ELSE CASE ty.k = "ptr" -> SamePtr(c, t, v, w)
            [] ty.k \in ListKinds ->
                 LET a == ListOf(t, v)
                     b == ListOf(t, w)
                 IN IF IsBytes(t) THEN a = b
                    ELSE /\ Len(a) = Len(b)
                         /\ \A i \in 1..Len(a) : SameElem(c, ty.e, a[i], b[i])
            [] ty.k = "struct" ->
                 \A i \in 1..Len(ty.f) : IF Kept(ty.f[i]) THEN Same(c, ty.f[i].t, v[i], w[i])
                                         ELSE w[i] = <<>>
            [] ty.k = "iface" ->
                 IF v = <<>> THEN w = <<>>
                 ELSE /\ w # <<>>
                      /\ w[1].t = v[1].t
                      /\ w[1].d = Codecs[c].cons[ConOf(c, v[1].t)].ptr
                      /\ Same(c, v[1].t, v[1].v, w[1].v)
            [] OTHER -> v = w

\* Whether a value holds an interface that holds a nil pointer.
RECURSIVE NilInIface(_, _)
NilInIface(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN NilInIface(ty.repr, v)
     ELSE CASE ty.k = "ptr" -> v # <<>> /\ NilInIface(ty.e, v[1])
            [] ty.k \in ListKinds /\ ~IsBytes(t) ->
                 LET l == ListOf(t, v) IN \E q \in 1..Len(l) : NilInIface(ty.e, l[q])
            [] ty.k = "struct" -> \E q \in 1..Len(ty.f) : Kept(ty.f[q]) /\ NilInIface(ty.f[q].t, v[q])
            [] ty.k = "iface" -> v # <<>> /\ (v[1].d < 0 \/ NilInIface(v[1].t, v[1].v))
            [] ty.k = "map" -> v # <<>> /\ \E q \in 1..Len(v[1]) : NilInIface(ty.e, v[1][q][2])
            [] OTHER -> FALSE

\* Equality of abstract values, not distinguishing nil from empty lists.
RECURSIVE Eq(_, _, _)
Eq(t, v, w) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN Eq(ty.repr, v, w)
     ELSE CASE ty.k = "ptr" -> IF v = <<>> \/ w = <<>> THEN v = w ELSE Eq(ty.e, v[1], w[1])
            [] ty.k \in ListKinds ->
                 LET a == ListOf(t, v)
                     b == ListOf(t, w)
                 IN IF IsBytes(t) THEN a = b
                    ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(ty.e, a[i], b[i])
            [] ty.k = "struct" -> \A i \in 1..Len(ty.f) : Kept(ty.f[i]) => Eq(ty.f[i].t, v[i], w[i])
            [] ty.k = "iface" ->
                 IF v = <<>> \/ w = <<>> THEN v = w
                 ELSE v[1].t = w[1].t /\ v[1].d = w[1].d /\ Eq(v[1].t, v[1].v, w[1].v)
            [] ty.k = "map" ->
                 LET a == IF v = <<>> THEN <<>> ELSE v[1]
                     b == IF w = <<>> THEN <<>> ELSE w[1]
                 IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ Eq(ty.e, a[i][2], b[i][2])
            [] OTHER -> v = w
============================================================================
