----------------------------- MODULE AminoPrim -----------------------------
(* The exported primitive encoders and decoders, by name.                   *)
EXTENDS AminoBinary

PrimEnc(p, v) ==
  CASE p \in {"i8", "i16", "varint"} -> Enc(Varint(v))
    [] p \in {"uvarint", "u16", "u8", "byte"} -> Enc(Uvarint(v))
    [] p = "i32" -> Enc(SubSeq(v, 1, 4))
    [] p = "u32" -> Enc(SubSeq(v, 1, 4))
    [] p = "i64" -> Enc(v)
    [] p = "u64" -> Enc(v)
    [] p = "bool" -> Enc(<<v>>)
    [] p \in {"f32", "f64"} -> Enc(v)
    [] p = "time" -> EncTime(v)
    [] p \in {"bytes", "str"} -> Enc(LenPrefixed(v))

\* A time at the start of bz: what follows it may be another field.
PrimDecTime(bz) ==
  IF bz = <<>> THEN Dec(Time1970, 0)
  ELSE LET k == ReadKey(bz)
       IN IF k.n = 0 \/ k.typ # 0 \/ k.num \notin {1, 2} THEN Rej
          ELSE LET s == IF k.num = 1 THEN ReadUvarint(Drop(bz, k.n)) ELSE [n |-> 1, u |-> Zero8]
                   n == IF k.num = 1 THEN k.n + s.n ELSE 0
                   rest == Drop(bz, n)
               IN IF s.n = 0 \/ ~TimeInRange(s.u) THEN Rej
                  ELSE IF rest = <<>> THEN Dec(<<s.u, 0>>, n)
                  ELSE LET k2 == ReadKey(rest)
                       IN IF k2.n = 0 THEN Rej
                          ELSE IF k2.num # 2 \/ k2.typ # 0 THEN Dec(<<s.u, 0>>, n)
                          ELSE LET ns == ReadUvarint(Drop(rest, k2.n))
                               IN IF ns.n = 0 \/ ~Fits31(ns.u) THEN Rej
                                  ELSE IF ToNat(ns.u) > 999999999 THEN Rej
                                  ELSE Dec(<<s.u, ToNat(ns.u)>>, n + k2.n + ns.n)

PrimDec(p, bz) ==
  CASE p \in {"i8", "i16", "varint"} ->
         LET r == ReadUvarint(bz)
             u == UnZigZag(r.u)
         IN IF r.n = 0 \/ (p = "i8" /\ ~SFits(u, 1)) \/ (p = "i16" /\ ~SFits(u, 2)) THEN Rej
            ELSE Dec(u, r.n)
    [] p \in {"uvarint"} -> DecUv(bz, LAMBDA u : TRUE)
    [] p = "u16" -> DecUv(bz, LAMBDA u : UFits(u, 2))
    [] p \in {"u8", "byte"} -> DecUv(bz, LAMBDA u : UFits(u, 1))
    [] p = "i32" -> DecFixed(bz, 4, TRUE)
    [] p = "u32" -> DecFixed(bz, 4, FALSE)
    [] p \in {"i64", "u64"} -> DecFixed(bz, 8, TRUE)
    [] p = "bool" -> IF bz = <<>> THEN Rej ELSE IF bz[1] > 1 THEN Rej ELSE Dec(bz[1], 1)
    [] p = "f32" -> IF Len(bz) < 4 THEN Rej ELSE Dec(SubSeq(bz, 1, 4), 4)
    [] p = "f64" -> IF Len(bz) < 8 THEN Rej ELSE Dec(SubSeq(bz, 1, 8), 8)
    [] p = "time" -> PrimDecTime(bz)
    [] p \in {"bytes", "str"} ->
         LET l == ReadLen(bz) IN IF l.n = 0 THEN Rej ELSE Dec(Within(bz, l), l.n + l.len)
=============================================================================
