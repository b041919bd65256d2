------------------------------ MODULE ModelPrim ------------------------------
(* The primitive encoders and decoders on all values around powers of two,  *)
(* on all short byte strings of some shapes, and on all single edits of     *)
(* encodings.  What makes them a code is invariant here; every case is      *)
(* printed too, for the real code.                                          *)
EXTENDS AminoEvents

NumOf(s) == CHOOSE n \in 0..200 : ToString(n) = s
Shard == NumOf(IOEnv.AMINO_SHARD)
Shards == NumOf(IOEnv.AMINO_SHARDS)
Stride == NumOf(IOEnv.AMINO_STRIDE)    \* every how many-th encoding is edited

Prims == <<"i8", "i16", "i32", "i64", "varint", "byte", "u8", "u16", "u32", "u64", "uvarint", "bool", "f32", "f64", "time", "bytes", "str">>
Signed == {"i8", "i16", "i32", "i64", "varint"}
Unsigned == {"byte", "u8", "u16", "u32", "u64", "uvarint"}
Width(p) == CASE p \in {"i8", "byte", "u8"} -> 1 [] p \in {"i16", "u16"} -> 2 [] p \in {"i32", "u32"} -> 4 [] OTHER -> 8

Bit(k) == Force([i \in 1..8 |-> IF i = 1 + k \div 8 THEN P2[1 + (k % 8)] ELSE 0])
Less1(x) == Not8(AddN(Not8(x), 1))
Around == UNION {{Less1(Less1(Bit(k))), Less1(Bit(k)), Bit(k), AddN(Bit(k), 1), AddN(Bit(k), 2)} : k \in 0..63}
Ints == Around \cup {Not8(x) : x \in Around}

F32s == {<<a, 0, b, c>> : a \in {0, 1, 255}, b \in {0, 127, 128, 192}, c \in {0, 63, 127, 128, 255}}
F64s == {<<a, 0, 0, 0, 0, 255, b, c>> : a \in {0, 1}, b \in {0, 15, 239, 240, 248}, c \in {0, 63, 127, 128, 255}}
\* Signalling NaNs do not survive a conversion.
Quiet32(b) == ~(b[4] % 128 = 127 /\ b[3] \in 128..191)
Instants == {<<s, n>> : s \in {x \in Ints : x[8] \in 0..31 \cup 224..255}, n \in {0, 1, 127, 128, 999999999}}
Texts == {Force([i \in 1..n |-> (i * k) % 256]) : n \in {0, 1, 2, 126, 127, 128, 129, 300}, k \in {0, 7}}

ValsOf(p) ==
  CASE p \in Signed -> {x \in Ints : SFits(x, Width(p))}
    [] p \in Unsigned -> {x \in Ints : UFits(x, Width(p))}
    [] p = "bool" -> {0, 1}
    [] p = "f32" -> {x \in F32s : Quiet32(x)}
    [] p = "f64" -> F64s
    [] p = "time" -> Instants
    [] OTHER -> Texts

\* Bytes of many shapes.
Ends == {0, 1, 2, 3, 15, 16, 127}
Shapes ==
  {<<>>} \cup {<<x>> : x \in Byte} \cup {<<x, y>> : x \in {0, 1, 8, 16, 128, 129, 255}, y \in {0, 1, 2, 8, 16, 127, 128, 255}}
  \cup UNION {{Rep(x, n) \o e : e \in {<<y>> : y \in Ends} \cup {<<y, 1>> : y \in Ends} \cup {<<>>}} : n \in 1..12, x \in {128, 254, 255}}
  \cup {<<8>> \o a \o <<16>> \o b : a \in {<<0>>, <<1>>, <<128, 0>>, <<255, 255, 255, 255, 15>>, Rep(255, 9) \o <<1>>},
                                    b \in {<<>>, <<0>>, <<5>>, <<128, 0>>, <<255, 147, 235, 220, 3>>, <<128, 148, 235, 220, 3>>, <<5, 24>>, <<5, 8>>}}

VARIABLES p, phase, x
vars == <<p, phase, x>>

Init == /\ p \in {q \in 1..Len(Prims) : TRUE} /\ phase = "prim" /\ x = <<>>

HashOf(b) == IF b = <<>> THEN 0 ELSE Len(b) + 3 * b[1] + 5 * b[Len(b)] + 11 * b[1 + Len(b) \div 2]
Mine(b) == HashOf(b) % Shards = Shard
ValHash(v) == CASE Prims[p] = "bool" -> v [] Prims[p] = "time" -> HashOf(v[1]) + v[2] [] OTHER -> HashOf(v)

PickV == /\ phase = "prim"
         /\ \E v \in ValsOf(Prims[p]) :
              /\ ValHash(v) % Shards = Shard
              /\ x' = v /\ PrintT("CASE prim " \o ToJson(<<Prims[p], v>>))
         /\ phase' = "value" /\ p' = p
PickB == /\ phase = "prim"
         /\ \E b \in {s \in Shapes : Mine(s)} : x' = b /\ PrintT("CASE primd " \o ToJson(<<Prims[p], b>>))
         /\ phase' = "bytes" /\ p' = p

Edits(b) ==
  UNION {{[b EXCEPT ![i] = y] : y \in {0, (b[i] + 1) % 256, (b[i] + 255) % 256, (b[i] + 128) % 256}} : i \in 1..Len(b)}
  \cup {Take(b, i - 1) \o Drop(b, i) : i \in 1..Len(b)} \cup {Take(b, i) : i \in 0..(Len(b) - 1)}
  \cup {Take(b, i) \o <<y>> \o Drop(b, i) : i \in 0..Len(b), y \in {0, 8, 128, 255}}
Edit == /\ phase = "value" /\ (ValHash(x) \div Shards) % Stride = 0
        /\ LET r == PrimEnc(Prims[p], x)
           IN IsOk(r) /\ Len(r.b) < 30
              /\ \E b \in Edits(r.b) : x' = b /\ PrintT("CASE primd " \o ToJson(<<Prims[p], b>>))
        /\ phase' = "bytes" /\ p' = p

Next == PickV \/ PickB \/ Edit

----------------------------------------------------------------------------
IsTime == Prims[p] = "time"

\* C06: every value comes back, whatever follows it, and no part of its
\* encoding decodes.
Pair ==
  phase = "value" =>
    LET r == PrimEnc(Prims[p], x)
    IN IsOk(r) =>
         /\ \A j \in {<<>>, <<0>>, <<128, 1>>, <<255>>} :
              LET d == PrimDec(Prims[p], r.b \o j)
              IN (IsTime /\ j # <<>>) \/ (IsOk(d) /\ d.v = x /\ d.n = Len(r.b))
         /\ IsTime \/ \A n \in 0..(Len(r.b) - 1) : ~IsOk(PrimDec(Prims[p], Take(r.b, n)))

\* No shorter encoding: the last group of a number is not zero.
Shortest ==
  phase = "value" /\ Prims[p] \in {"varint", "uvarint", "i8", "i16", "u8", "u16", "byte"} =>
    LET b == PrimEnc(Prims[p], x).b
    IN Len(b) <= 10 /\ (Len(b) > 1 => b[Len(b)] # 0)

\* What is decoded depends only on what is consumed, and comes back.
Settled ==
  phase = "bytes" =>
    LET d == PrimDec(Prims[p], x)
        e == PrimEnc(Prims[p], d.v)
    IN IsOk(d) => /\ d.n <= Len(x)
                  /\ IsTime \/ LET d2 == PrimDec(Prims[p], Take(x, d.n)) IN IsOk(d2) /\ d2.v = d.v /\ d2.n = d.n
                  /\ IsOk(e) /\ PrimDec(Prims[p], e.b).v = d.v
                  /\ IsTime \/ Len(e.b) <= d.n
=============================================================================
