----------------------------- MODULE AminoTypes -----------------------------
(* The universe of Go types and codecs that the specification talks about,  *)
(* and the abstract values of these types.                                  *)
(*                                                                          *)
(* Types is a sequence; a type is named by its index.  A type is a record   *)
(*   k     kind: "bool" "i8" "i16" "i32" "i64" "int" "u8" "u16" "u32" "u64" *)
(*         "uint" "f32" "f64" "str" "slice" "array" "ptr" "struct" "time"   *)
(*         "iface" "map"                                                    *)
(*   e, n  element type (slice, array, ptr, map) and length (array)         *)
(*   f     struct fields in order: [x exported?, t type, nm Go name,        *)
(*         jt the parts of the json tag, bt binary tag, at amino tags]      *)
(*   repr  the type of the representation when the type has MarshalAmino    *)
(*         and UnmarshalAmino, or 0                                         *)
(*   merr, uerr  the representations for which these return an error        *)
(*   impP, impV  interface types implemented by the pointer / value type    *)
(*                                                                          *)
(* Codecs is a sequence of [ifs |-> <<[t, alw, prio]>>,                     *)
(*                          cons |-> <<[t, n, ptr]>>]; n is the index of    *)
(* the name in Names.                                                       *)
(*                                                                          *)
(* Abstract values: integers are 8 bytes (see Bytes), bools 0 or 1, floats  *)
(* their 4 or 8 bytes, strings byte strings; a list of uint8 is a byte      *)
(* string, other lists are sequences; slices, pointers, maps and interfaces *)
(* are <<>> when nil, otherwise <<contents>>; the contents of an interface  *)
(* are [t |-> type, d |-> levels of pointers, v |-> value] (d = -1 when one *)
(* of the pointers is nil) and those of a map are its entries <<key, value>>*)
(* in the order of the keys; a struct is the sequence of all its fields     *)
(* (<<>> for those which are not part of the value); a time is              *)
(* <<seconds since 1970, nanoseconds>>.  A value of a type with a           *)
(* representation is its representation.                                    *)
EXTENDS Bytes, Sha256, FiniteSets, AminoEnv


NT == Len(Types)
K(t) == Types[t].k

IntKinds == {"i8", "i16", "i32", "i64", "int"}
UintKinds == {"u8", "u16", "u32", "u64", "uint"}
VarKinds == IntKinds \cup UintKinds
ListKinds == {"slice", "array"}

\* The type behind all pointers.
RECURSIVE BaseR(_)
BaseR(t) == IF K(t) = "ptr" THEN BaseR(Types[t].e) ELSE t
BaseTab == Force([t \in 1..NT |-> BaseR(t)])
Base(t) == BaseTab[t]

Has(s, x) == \E i \in 1..Len(s) : s[i] = x

----------------------------------------------------------------------------
(* Struct fields and their options *)

\* Options: num field number, f64 f32 fixed width, uns unsafe, we
\* write_empty, ee empty_elements.
NoOpts == [num |-> 1, f64 |-> FALSE, f32 |-> FALSE, uns |-> FALSE, we |-> FALSE, ee |-> FALSE]

Kept(f) == f.x = 1 /\ f.jt # <<"-">>

FieldOf(s, i) ==
  LET f == Types[s].f[i]
      num == Cardinality({j \in 1..i : Kept(Types[s].f[j])})
  IN [i |-> i, t |-> f.t, nm |-> f.nm, jn |-> f.jn, om |-> Len(f.jt) > 1 /\ f.jt[2] = "omitempty",
      o |-> [num |-> num, f64 |-> f.bt = "fixed64", f32 |-> f.bt = "fixed32",
             uns |-> Has(f.at, "unsafe"), we |-> Has(f.at, "write_empty"),
             ee |-> Has(f.at, "empty_elements")]]

\* Wire types of base types.
Typ3(t, o) ==
  CASE K(t) \in {"i64", "u64"} -> IF o.f64 THEN 1 ELSE 0
    [] K(t) \in {"i32", "u32"} -> IF o.f32 THEN 5 ELSE 0
    [] K(t) \in {"i8", "i16", "int", "u8", "u16", "uint", "bool"} -> 0
    [] K(t) = "f64" -> 1
    [] K(t) = "f32" -> 5
    [] OTHER -> 2

IsBytes(t) == K(t) \in ListKinds /\ K(Types[t].e) = "u8"

\* Whether a field is written as one entry per element of the list it holds.
Unpacked(t, o) == /\ K(t) \in ListKinds
                  /\ Types[t].repr = 0
                  /\ ~IsBytes(t)
                  /\ Typ3(Base(Types[t].e), o) = 2

\* The indices of the fields that are part of the value.
RECURSIVE KeptFields(_, _)
KeptFields(s, i) == IF i > Len(Types[s].f) THEN <<>>
                    ELSE (IF Kept(Types[s].f[i]) THEN <<i>> ELSE <<>>) \o KeptFields(s, i + 1)

FieldTab ==
  Force([s \in 1..NT |->
    IF K(s) # "struct" THEN <<>>
    ELSE LET kept == KeptFields(s, 1)
         IN Force([j \in 1..Len(kept) |->
              LET f == FieldOf(s, kept[j])
              IN [i |-> f.i, t |-> f.t, b |-> Base(f.t), nm |-> f.nm, jn |-> f.jn, om |-> f.om, o |-> f.o,
                  unp |-> Unpacked(f.t, f.o)]])])
Fields(s) == FieldTab[s]

----------------------------------------------------------------------------
(* Zero values and the defaults of decoding *)

MinSeconds == <<0, 9, 110, 136, 241, 255, 255, 255>>   \* 0001-01-01
MaxSeconds == <<128, 65, 244, 255, 58, 0, 0, 0>>       \* 10000-01-01
Time1970 == <<Zero8, 0>>
TimeZero == <<MinSeconds, 0>>
TimeInRange(s) == ~SLess(s, MinSeconds) /\ SLess(s, MaxSeconds)

Rep(x, n) == Force([i \in 1..n |-> x])

\* The zero value of Go.
RECURSIVE ZeroR(_)
ZeroR(t) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN ZeroR(ty.repr)
     ELSE CASE ty.k \in VarKinds -> Zero8
            [] ty.k = "bool" -> 0
            [] ty.k = "f32" -> <<0, 0, 0, 0>>
            [] ty.k = "f64" -> Zero8
            [] ty.k = "time" -> TimeZero
            [] ty.k = "array" -> IF IsBytes(t) THEN Rep(0, ty.n) ELSE Rep(ZeroR(ty.e), ty.n)
            [] ty.k = "struct" -> Force([i \in 1..Len(ty.f) |->
                                    IF Kept(ty.f[i]) THEN ZeroR(ty.f[i].t) ELSE <<>>])
            [] OTHER -> <<>>
ZeroTab == Force([t \in 1..NT |-> ZeroR(t)])
ZeroV(t) == ZeroTab[t]

\* A time behind n pointers.
RECURSIVE PtrTo(_, _)
PtrTo(t, v) == IF K(t) = "ptr" THEN <<PtrTo(Types[t].e, v)>> ELSE v

\* What a field or element becomes that is missing from the encoding: times
\* (also behind pointers and inside structs and arrays) are 1970.
RECURSIVE DefaultR(_)
DefaultR(t) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN ZeroR(t)
     ELSE CASE ty.k = "ptr" -> IF K(Base(t)) = "time" THEN PtrTo(t, Time1970) ELSE <<>>
            [] ty.k = "time" -> Time1970
            [] ty.k = "struct" -> Force([i \in 1..Len(ty.f) |->
                                    IF Kept(ty.f[i]) THEN DefaultR(ty.f[i].t) ELSE <<>>])
            [] ty.k = "array" /\ ~IsBytes(t) -> Rep(DefaultR(ty.e), ty.n)
            [] OTHER -> ZeroR(t)
DefaultTab == Force([t \in 1..NT |-> DefaultR(t)])
DefaultV(t) == DefaultTab[t]

ListOf(t, v) == IF K(t) = "slice" THEN (IF v = <<>> THEN <<>> ELSE v[1]) ELSE v

\* Behind all pointers: <<TRUE, value>>, or <<FALSE>> when one of them is nil.
RECURSIVE Deref(_, _)
Deref(t, v) == IF K(t) # "ptr" THEN <<TRUE, v>>
               ELSE IF v = <<>> THEN <<FALSE>>
               ELSE Deref(Types[t].e, v[1])

\* Whether a value is the zero value, empty lists being no different from nil.
RECURSIVE IsZero(_, _)
IsZero(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN IsZero(ty.repr, v)
     ELSE CASE ty.k \in {"slice", "map"} -> v = <<>> \/ v[1] = <<>>
            [] ty.k = "array" /\ ~IsBytes(t) -> \A i \in 1..ty.n : IsZero(ty.e, v[i])
            [] ty.k = "struct" -> \A i \in 1..Len(ty.f) : Kept(ty.f[i]) => IsZero(ty.f[i].t, v[i])
            [] OTHER -> v = ZeroR(t)

\* Whether a (dereferenced) value is a default that binary leaves out: zero
\* integers, empty strings and lists, nil interfaces; never a bool, float,
\* array, struct or time.  The kind is that of the type itself, also when it
\* has a representation.
IsDefaultB(t, v) ==
  CASE K(t) \in VarKinds \cup {"str", "slice", "map", "iface"} -> IsZero(t, v)
    [] OTHER -> FALSE
IsDefault(t, v) == LET d == Deref(t, v) IN IF d[1] THEN IsDefaultB(Base(t), d[2]) ELSE TRUE

----------------------------------------------------------------------------
(* Registered names: prefix and disambiguation bytes *)

RECURSIVE DropZeros(_)
DropZeros(b) == IF b[1] = 0 THEN DropZeros(Tail(b)) ELSE b

NameDisfix(name) ==
  LET h == DropZeros(Sha256(name))
  IN [d |-> SubSeq(h, 1, 3), p |-> SubSeq(DropZeros(From(h, 4)), 1, 4)]

\* Per codec and registered concrete type: its bytes.
NameTab == Force([q \in 1..Len(Names) |-> NameDisfix(Names[q])])
DisfixTab == Force([c \in 1..Len(Codecs) |->
               Force([i \in 1..Len(Codecs[c].cons) |-> NameTab[Codecs[c].cons[i].n]])])

\* The index of the registration of a type, or 0.
ConTab == Force([c \in 1..Len(Codecs) |-> Force([t \in 1..NT |->
            LET s == {i \in 1..Len(Codecs[c].cons) : Codecs[c].cons[i].t = t}
            IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE])])
ConOf(c, t) == ConTab[c][t]
IfTab == Force([c \in 1..Len(Codecs) |-> Force([t \in 1..NT |->
           LET s == {i \in 1..Len(Codecs[c].ifs) : Codecs[c].ifs[i].t = t}
           IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE])])
IfOf(c, t) == IfTab[c][t]

Prefix(c, t) == DisfixTab[c][ConOf(c, t)].p
Disamb(c, t) == DisfixTab[c][ConOf(c, t)].d

\* The registered concrete types that implement interface type t.
Implementers(c, t) == {i \in 1..Len(Codecs[c].cons) : Has(Types[Codecs[c].cons[i].t].impP, t)}
ImplTab == Force([c \in 1..Len(Codecs) |-> Force([t \in 1..NT |->
             IF K(t) = "iface" THEN Implementers(c, t) ELSE {}])])
WithPrefix(c, t, p) == {i \in ImplTab[c][t] : DisfixTab[c][i].p = p}

\* Whether a value of concrete type u, as it is constructed when decoding,
\* implements interface t.
Implements(c, i, t) == LET r == Codecs[c].cons[i]
                       IN IF r.ptr = 1 THEN Has(Types[r.t].impP, t) ELSE Has(Types[r.t].impV, t)

NeedDisamb(c, t, u) == \/ Codecs[c].ifs[IfOf(c, t)].alw = 1
                       \/ Cardinality(WithPrefix(c, t, Prefix(c, u))) > 1

\* Whether the codec can use the (base) type at all.
TypeOk(c, t) ==
  CASE K(t) = "iface" -> IfOf(c, t) # 0
    [] K(t) = "struct" -> \A j \in 1..Len(Fields(t)) :
                            K(Fields(t)[j].t) \in {"f32", "f64"} => Fields(t)[j].o.uns
    [] OTHER -> TRUE
TypeOkTab == Force([c \in 1..Len(Codecs) |-> Force([t \in 1..NT |-> K(t) # "ptr" /\ TypeOk(c, t)])])
=============================================================================
