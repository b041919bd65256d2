----------------------------- MODULE ModelValues -----------------------------
(* All small values of many small types (the cases of the environment, made *)
(* by driver "smallenv"), what becomes of each of them in both formats, and *)
(* what becomes of the encodings when they are damaged.  A behaviour picks  *)
(* a case, then a value of its type, then one of the encodings, then edits  *)
(* of it.  The specification's own guarantees are invariants here; each     *)
(* state is also printed, for the real code to go through the same.         *)
EXTENDS AminoEvents

Cases == Env.cases       \* [c, t, j, to, down]: j when only JSON supports the type
                         \* to: a type with more fields, or with fewer (down), or 0
Dom == Env.dom           \* small domains of the leaves, by kind
Floats == Env.fl         \* the texts of the floats among them

NumOf(s) == CHOOSE n \in 0..200 : ToString(n) = s
Shard == NumOf(IOEnv.AMINO_SHARD)
Shards == NumOf(IOEnv.AMINO_SHARDS)
Edits == NumOf(IOEnv.AMINO_EDITS)       \* how many edits of an encoding
Stride == NumOf(IOEnv.AMINO_STRIDE)     \* every how many-th value is edited
Short == NumOf(IOEnv.AMINO_SHORT)       \* every how many-th short input, 0: none
Mode == IOEnv.AMINO_MODE              \* "bin" or "json"
IsJ == Mode = "json"

Least(a, b) == IF a < b THEN a ELSE b
First(s, n) == Take(s, Least(n, Len(s)))

----------------------------------------------------------------------------
(* The small values of a type, richer for greater l. *)

MapS(s, Op(_)) == Force([i \in 1..Len(s) |-> Op(s[i])])
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flatten(Tail(s))

\* All tuples with an element of each of the sequences.
RECURSIVE Tuples(_)
Tuples(ss) == IF ss = <<>> THEN << <<>> >>
              ELSE LET rest == Tuples(Tail(ss))
                   IN Flatten(MapS(ss[1], LAMBDA x : MapS(rest, LAMBDA r : <<x>> \o r)))
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN 1 ELSE Least(1000, Len(ss[1]) * Product(Tail(ss)))

\* Or only those that differ from the first of all in one or in all places.
Star(ss) ==
  LET zero == Force([i \in 1..Len(ss) |-> ss[i][1]])
      full == Force([i \in 1..Len(ss) |-> ss[i][Len(ss[i])]])
  IN <<zero, full>> \o Flatten(Force([i \in 1..Len(ss) |->
       MapS(Tail(ss[i]), LAMBDA x : [zero EXCEPT ![i] = x])]))

Combine(ss) == IF Product(ss) <= 30 THEN Tuples(ss) ELSE Star(ss)

Count(l) == IF l >= 2 THEN 20 ELSE IF l = 1 THEN 4 ELSE 2

RECURSIVE Vals(_, _, _)
Vals(c, t, l) ==
  LET ty == Types[t]
      sub == IF ty.e = 0 THEN <<>> ELSE Vals(c, ty.e, l - 1)
  IN IF ty.repr # 0 THEN Vals(c, ty.repr, l)
     ELSE CASE IsBytes(t) /\ ty.k = "slice" -> << <<>> >> \o MapS(First(Dom.bytes, Count(l)), LAMBDA b : <<b>>)
            [] IsBytes(t) -> << Rep(0, ty.n), Force([i \in 1..ty.n |-> 254 + (i % 2)]) >>
            [] ty.k = "slice" -> << <<>>, << <<>> >> >> \o MapS(First(sub, 12), LAMBDA x : << <<x>> >>)
                                   \o MapS(Tuples(<<First(sub, 2), First(sub, 2)>>), LAMBDA x : <<x>>)
            [] ty.k = "array" -> Combine(Rep(First(sub, 4), ty.n))
            [] ty.k = "ptr" -> << <<>> >> \o MapS(sub, LAMBDA x : <<x>>)
            [] ty.k = "map" -> << <<>>, << <<>> >> >>
                                 \o MapS(First(sub, 6), LAMBDA x : << << <<<<107>>, x>> >> >>)
                                 \o << << << <<<<>>, sub[1]>>, <<<<107>>, sub[Len(sub)]>> >> >> >>
            [] ty.k = "struct" -> Combine(Force([i \in 1..Len(ty.f) |->
                                    IF Kept(ty.f[i]) THEN Vals(c, ty.f[i].t, l - 1) ELSE << <<>> >>]))
            [] ty.k = "iface" ->
                 << <<>> >> \o Flatten(Force([i \in 1..Len(Codecs[c].cons) |->
                   LET u == Codecs[c].cons[i].t
                       vs == First(Vals(c, u, l - 1), 3)
                       In(d) == MapS(vs, LAMBDA v : << [t |-> u, d |-> d, v |-> v] >>)
                   IN (IF Has(Types[u].impV, t) THEN In(0) ELSE <<>>) \o (IF Has(Types[u].impP, t) THEN In(1) ELSE <<>>)]))
            [] OTHER -> First(Dom[ty.k], Count(l))

----------------------------------------------------------------------------
(* What holds of every value *)

\* C01 and C03, on the specification itself.
RoundTrips(c, t, v) ==
  LET e == EncTop(c, t, v)
      d == DecTop(c, t, e.b, ZeroV(t))
      p == EncTopLP(c, t, v)
      q == DecTopLP(c, t, p.b, ZeroV(t))
      again == EncTop(c, t, d.v)
  IN IsOk(e) => /\ IsOk(d) /\ d.n = Len(e.b)
                /\ Same(c, t, v, d.v)
                /\ IsOk(p) /\ p.b = LenPrefixed(e.b)
                /\ IsOk(q) /\ Eq(t, q.v, d.v)
                /\ NilTimePtr(t, v) \/ (IsOk(again) /\ again.b = e.b)

\* C09: no part of a message is a message.
NoPrefix(c, t, v) ==
  LET p == EncTopLP(c, t, v)
  IN IsOk(p) => \A n \in 0..(Len(p.b) - 1) : ~IsOk(DecTopLP(c, t, Take(p.b, n), ZeroV(t)))

\* C22: an encoding can be walked without its type, as the type says.
Walks(c, t, v) ==
  LET e == EncTop(c, t, v)
  IN IsOk(e) /\ K(Base(t)) = "struct" /\ Types[Base(t)].repr = 0 => WalkTop(c, t, e.b)

\* C07: it means the same to those that know more or fewer fields.
Evolves(c, t, v, to, down) ==
  LET e == EncTop(c, t, v)
      d == DecTop(c, to, e.b, ZeroV(to))
  IN to # 0 /\ IsOk(e) /\ TypeOkTab[c][Base(to)] =>
       /\ IsOk(d)
       /\ CheckEvo([c |-> c, t |-> t, tt |-> to, v |-> v, eo |-> "ok", do |-> "ok", w |-> d.v, down |-> down,
                    b0 |-> <<>>, b1 |-> <<>>]) = Yes

\* C14.
JRoundTrips(c, t, v) ==
  LET e == EncJTop(c, t, v, Floats)
      d == DecJTop(c, t, e.b, ZeroV(t), Floats)
      again == EncJTop(c, t, d.v, Floats)
  IN IsOk(e) => /\ Tree(e.b).k # "bad"
                /\ IsOk(d)
                /\ JEq(t, Norm(c, t, v), d.v)
                /\ IsOk(again)
                \* An empty list becomes nil, then so does a pointer to it.
                /\ LET w == Norm(c, t, d.v) IN JEq(t, Norm(c, t, w), w)

\* C05: what decodes is a value, which survives another round trip, unless
\* it cannot be encoded.
Settles(c, t, b, lp) ==
  LET d == IF lp = 1 THEN DecTopLP(c, t, b, ZeroV(t)) ELSE DecTop(c, t, b, ZeroV(t))
      e == EncTop(c, t, d.v)
      d2 == DecTop(c, t, e.b, ZeroV(t))
  IN IsOk(d) => /\ d.n = Len(b)
                /\ IsOk(e) => IsOk(d2) /\ Same(c, t, d.v, d2.v)

JSettles(c, t, b) ==
  LET d == DecJTop(c, t, b, ZeroV(t), Floats)
      e == EncJTop(c, t, d.v, Floats)
      d2 == DecJTop(c, t, e.b, ZeroV(t), Floats)
  IN IsOk(d) /\ IsOk(e) => IsOk(d2) /\ JEq(t, Norm(c, t, d.v), d2.v)

----------------------------------------------------------------------------
VARIABLES ci, phase, what, left

Case == Cases[ci]

Emit(kind, x) == PrintT("CASE " \o kind \o " " \o ToJson(x))

Init == ci \in {i \in 1..Len(Cases) : i % Shards = Shard /\ (IsJ \/ Cases[i].j = 0)}
        /\ phase = "case" /\ what = <<>> /\ left = 0

Value == /\ phase = "case"
         /\ LET vs == Vals(Case.c, Case.t, 3)
            IN \E q \in 1..Len(vs) : what' = <<q, vs[q]>> /\ Emit("value", <<ci, vs[q]>>)
         /\ phase' = "value" /\ left' = 0 /\ ci' = ci

Encode == /\ phase = "value" /\ Edits > 0 /\ (what[1] + ci) % Stride = 0
          /\ \E lp \in {0, 1} :
               LET r == IF IsJ THEN EncJTop(Case.c, Case.t, what[2], Floats)
                        ELSE IF lp = 1 THEN EncTopLP(Case.c, Case.t, what[2]) ELSE EncTop(Case.c, Case.t, what[2])
               IN IsOk(r) /\ what' = <<lp, r.b>>
                  \* Length prefixes only now and then.
                  /\ (lp = 1 => ~IsJ /\ what[1] % 3 = 0)
          /\ phase' = "bytes" /\ left' = Edits /\ ci' = ci

\* Another byte in a place.
Others(x) == IF IsJ THEN {48, 34, 44, 125, 93, 32, 110} ELSE {0, (x + 1) % 256, (x + 255) % 256, (x + 128) % 256, (x + 8) % 256, 255}
Edited(b) ==
  UNION {{[b EXCEPT ![i] = y] : y \in Others(b[i])} : i \in 1..Len(b)}               \* replaced
  \cup {Take(b, i - 1) \o Drop(b, i) : i \in 1..Len(b)}                               \* removed
  \cup {Take(b, i) : i \in 0..(Len(b) - 1)}                                           \* cut off
  \cup {Take(b, i) \o <<y>> \o Drop(b, i) : i \in 0..Len(b), y \in (IF IsJ THEN {32, 49, 44} ELSE {0, 8, 128})}   \* inserted
  \cup (IF Len(b) <= 12
        THEN {Take(b, j) \o SubSeq(b, i, j) \o Drop(b, j) : i \in 1..Len(b), j \in 1..Len(b)}    \* repeated
        ELSE {b \o b})

Edit == /\ phase = "bytes" /\ left > 0
        /\ \E b \in Edited(what[2]) : what' = <<what[1], b>> /\ Emit("bytes", <<ci, what[1], b>>)
        /\ left' = left - 1 /\ UNCHANGED <<ci, phase>>

----------------------------------------------------------------------------
(* Short inputs of all kinds: strings of up to three bytes that mean        *)
(* something somewhere, and small trees of JSON.                            *)
Alphabet == {0, 1, 2, 8, 9, 10, 13, 16, 18, 128, 255}
Strings == Force([n \in 1..3 |-> SetToSeq([1..n -> Alphabet])])

Scalars == Env.scalars    \* texts
Keys == Env.keys          \* names of fields and others, with their quotes
Arr(es) == <<91>> \o es \o <<93>>
Obj(ms) == <<123>> \o ms \o <<125>>
Mem(k, e) == k \o <<58>> \o e
Quoted(s) == <<34>> \o s \o <<34>>
Few == First(Scalars, 3)
\* Of one more level than those.
Over(c, xs) ==
  MapS(xs, LAMBDA x : Arr(x)) \o MapS(xs, LAMBDA x : Arr(x \o <<44>> \o Scalars[1]))
  \o Flatten(MapS(Keys, LAMBDA k : MapS(xs, LAMBDA x : Obj(Mem(k, x)))))
  \o MapS(xs, LAMBDA x : Obj(Mem(Keys[1], x) \o <<44>> \o Mem(Keys[2], Few[2])))
  \o Flatten(Force([i \in 1..Len(Codecs[c].cons) |->
       MapS(xs, LAMBDA x : Obj(Mem(Env.tkeys[1], Quoted(Names[Codecs[c].cons[i].n])) \o <<44>> \o Mem(Env.tkeys[2], x)))]))
Flat == Scalars \o <<Arr(<<>>), Obj(<<>>)>>
TreesOf(c) ==
  LET one == Over(c, Flat)
      some == Force([i \in 1..((Len(one) - 1) \div 3) |-> one[3 * i]])
  IN Flat \o one \o Over(c, some)
     \o Flatten(MapS(Few, LAMBDA x : MapS(Few, LAMBDA y : Obj(Mem(Keys[1], x) \o <<44>> \o Mem(Keys[1], y)))))
Trees == Force([c \in 1..Len(Codecs) |-> IF IsJ /\ Short > 0 THEN TreesOf(c) ELSE <<>>])

AllStrings == << <<>> >> \o Strings[1] \o Strings[2] \o Strings[3]
Brief == /\ phase = "case" /\ Short > 0
         /\ LET ss == IF IsJ THEN Trees[Case.c] ELSE AllStrings
            IN \E i \in {k \in 1..Len(ss) : (k + ci) % Short = 0} :
                 LET lp == IF IsJ THEN 0 ELSE (i \div Short) % 2
                 IN what' = <<lp, Force(ss[i])>> /\ Emit("bytes", <<ci, lp, Force(ss[i])>>)
         /\ phase' = "bytes" /\ left' = 0 /\ ci' = ci

Next == Value \/ Encode \/ Edit \/ Brief

ValueOk == phase = "value" =>
             IF IsJ THEN JRoundTrips(Case.c, Case.t, what[2])
             ELSE /\ RoundTrips(Case.c, Case.t, what[2])
                  /\ NoPrefix(Case.c, Case.t, what[2])
                  /\ Walks(Case.c, Case.t, what[2])
                  /\ Evolves(Case.c, Case.t, what[2], Case.to, Case.down)
BytesOk == phase = "bytes" =>
             IF IsJ THEN TRUE ELSE Settles(Case.c, Case.t, what[2], what[1])
=============================================================================
