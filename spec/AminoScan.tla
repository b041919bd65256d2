----------------------------- MODULE AminoScan -----------------------------
(* Encodings without their types: the fields that any proto3 parser finds,  *)
(* what they must be for a value of a type, and what aminoscan prints.      *)
EXTENDS AminoJSON, TLC

\* The fields at the start of bz, up to the end or the first that is
\* malformed: [fs |-> <<[num, typ, at, k, n]>>, n |-> bytes of them]; a
\* field starts at at, has k bytes of key and n bytes in all.
RECURSIVE ScanR(_, _, _)
ScanR(bz, at, acc) ==
  IF at > Len(bz) THEN [fs |-> acc, n |-> at - 1]
  ELSE LET rest == From(bz, at)
           key == ReadKey(rest)
           size == IF key.n = 0 \/ key.num = 0 THEN -1 ELSE PayloadSize(key.typ, Drop(rest, key.n))
       IN IF size < 0 THEN [fs |-> acc, n |-> at - 1]
          ELSE ScanR(bz, at + key.n + size,
                     Append(acc, [num |-> key.num, typ |-> key.typ, at |-> at, k |-> key.n, n |-> key.n + size]))
Scan(bz) == ScanR(bz, 1, <<>>)

\* The contents of a byte-length field.
Contents(bz, f) == LET p == SubSeq(bz, f.at + f.k, f.at + f.n - 1) IN Within(p, ReadLen(p))

----------------------------------------------------------------------------
(* The fields of a value of a known type *)

Minimal(bz, at, n) == n = 1 \/ bz[at + n - 1] # 0

RECURSIVE Packed(_, _, _), WalkVal(_, _, _, _), WalkStruct(_, _, _), WalkList(_, _, _, _, _)
\* A sequence of numbers of one wire type.
Packed(typ, bz, at) ==
  IF at > Len(bz) THEN TRUE
  ELSE LET n == PayloadSize(typ, From(bz, at)) IN n > 0 /\ Packed(typ, bz, at + n)

\* Whether bz is the contents of a byte-length field for a value of base type t.
WalkVal(c, t, o, bz) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN WalkVal(c, Base(ty.repr), o, bz)
     ELSE CASE ty.k = "str" -> TRUE
            [] ty.k = "time" -> LET s == Scan(bz) IN
                 /\ s.n = Len(bz)
                 /\ \A q \in 1..Len(s.fs) : s.fs[q].typ = 0 /\ s.fs[q].num \in {1, 2}
                 /\ \A q \in 2..Len(s.fs) : s.fs[q - 1].num < s.fs[q].num
            [] ty.k = "struct" -> WalkStruct(c, t, bz)
            [] ty.k \in ListKinds -> IsBytes(t) \/ WalkList(c, t, o, bz, TRUE)
            [] ty.k = "iface" ->
                 bz = <<>> \/
                 LET n == IF bz[1] = 0 THEN 8 ELSE 4
                     is == {i \in 1..Len(Codecs[c].cons) :
                              /\ DisfixTab[c][i].p = SubSeq(bz, n - 3, n)
                              /\ n = 8 => DisfixTab[c][i].d = SubSeq(bz, 2, 4)
                              /\ IF n = 4 THEN i \in ImplTab[c][t] ELSE TRUE}
                 IN /\ Cardinality(is) = 1
                    /\ LET u == Codecs[c].cons[CHOOSE i \in is : TRUE].t
                       IN Innermost(u) = u /\ Types[u].repr = 0 /\ K(u) = "struct" => WalkStruct(c, u, Drop(bz, n))
            [] OTHER -> FALSE

\* A list: numbers packed, or else fields of the number of the options.
WalkList(c, t, o, bz, wrapped) ==
  LET u == Base(Types[t].e)
  IN IF Typ3(u, o) # 2 THEN Packed(Typ3(u, o), bz, 1)
     ELSE LET s == Scan(bz)
          IN /\ s.n = Len(bz)
             /\ \A q \in 1..Len(s.fs) : /\ s.fs[q].num = o.num
                                        /\ s.fs[q].typ = 2
                                        /\ WalkVal(c, u, [o EXCEPT !.num = 1], Contents(bz, s.fs[q]))

WalkStruct(c, t, bz) ==
  LET s == Scan(bz)
      fs == Fields(t)
      F(q) == fs[s.fs[q].num]
  IN /\ s.n = Len(bz)
     /\ \A q \in 1..Len(s.fs) :
          /\ s.fs[q].num <= Len(fs)
          /\ s.fs[q].typ = IF F(q).unp THEN 2 ELSE Typ3(F(q).b, F(q).o)
          /\ Minimal(bz, s.fs[q].at, s.fs[q].k)
          /\ s.fs[q].typ = 2 =>
               IF F(q).unp THEN WalkVal(c, Base(Types[F(q).t].e), [F(q).o EXCEPT !.num = 1], Contents(bz, s.fs[q]))
               ELSE WalkVal(c, F(q).b, F(q).o, Contents(bz, s.fs[q]))
     /\ \A q \in 2..Len(s.fs) : \/ s.fs[q - 1].num < s.fs[q].num
                                \/ s.fs[q - 1].num = s.fs[q].num /\ F(q).unp

\* What MarshalBinaryBare gives for a value of a type which is a struct.
WalkTop(c, t, bz) ==
  LET b == Base(t)
      n == IF ConOf(c, b) # 0 THEN 4 ELSE 0
  IN /\ Len(bz) >= n
     /\ n = 4 => Take(bz, 4) = Prefix(c, b)
     /\ WalkStruct(c, b, Drop(bz, n))

----------------------------------------------------------------------------
(* What aminoscan prints, without colours and indentation *)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexText(bz) == Force([q \in 1..(2 * Len(bz)) |->
             HexDigit(IF q % 2 = 1 THEN bz[(q + 1) \div 2] \div 16 ELSE bz[q \div 2] % 16)])

TypName(typ) == CASE typ = 0 -> <<40, 85, 41, 86, 97, 114, 105, 110, 116>>
                  [] typ = 1 -> <<56, 66, 121, 116, 101>>
                  [] typ = 2 -> <<66, 121, 116, 101, 76, 101, 110, 103, 116, 104>>
                  [] typ = 5 -> <<52, 66, 121, 116, 101>>
                  [] OTHER -> <<>>
KeyLine(key, num, typ) == HexText(key) \o <<32, 64>> \o DecN(num) \o <<32>> \o TypName(typ)
ValueLine(typ, p) ==
  HexText(p) \o
  CASE typ = 0 -> LET u == ReadUvarint(p).u
                  IN <<32, 40, 105, 54, 52, 58>> \o DecS(UnZigZag(u)) \o <<32, 117, 54, 52, 58>> \o DecU(u) \o <<41>>
    [] typ = 2 -> <<32, 40>> \o DecN(ReadLen(p).len) \o <<32, 98, 121, 116, 101, 115, 41>>
    [] OTHER -> <<>>
FieldLines(bz, f) == << KeyLine(SubSeq(bz, f.at, f.at + f.k - 1), f.num, f.typ),
                        ValueLine(f.typ, SubSeq(bz, f.at + f.k, f.at + f.n - 1)) >>

\* e: [b, code, head, lines, tail, n, err]: the bytes, the exit code, the
\* lines between the two headings, the hex digits of the last line, the
\* count there and whether there is an error there.
CheckScan(e) ==
  LET s == Scan(e.b)
      want == Cat([q \in 1..Len(s.fs) |-> FieldLines(e.b, s.fs[q])])
      bad == s.n < Len(e.b)
      key == ReadKey(From(e.b, s.n + 1))
  IN IF e.code # 0 THEN "crash"
     ELSE IF e.err # (IF bad THEN 1 ELSE 0) THEN "error: expected " \o (IF bad THEN "one" ELSE "none")
     ELSE IF e.tail # HexText(e.b) THEN "not all bytes"
     ELSE IF Len(e.lines) < Len(want) THEN "fields are missing"
     ELSE IF Take(e.lines, Len(want)) # want
     THEN LET q == CHOOSE q \in 1..Len(want) : e.lines[q] # want[q] /\ \A p \in 1..(q - 1) : e.lines[p] = want[p]
          IN "line " \o ToString(q) \o ": expected " \o ToString(want[q])
     ELSE IF ~bad THEN IF Len(e.lines) # Len(want) \/ e.n # Len(e.b) THEN "more than the fields" ELSE "ok"
     \* The key of a field whose value is malformed may be shown.
     ELSE IF e.n \notin {s.n, s.n + key.n} THEN "count: expected " \o ToString(s.n)
     ELSE IF Len(e.lines) > Len(want) + (IF e.n > s.n THEN 1 ELSE 0) THEN "more than the fields"
     ELSE IF Len(e.lines) > Len(want)
     THEN LET p == KeyLine(SubSeq(e.b, s.n + 1, e.n), key.num, key.typ)
          IN IF HasPrefix(e.lines[Len(e.lines)], p) THEN "ok" ELSE "line: expected " \o ToString(p)
     ELSE "ok"

CheckWalk(e) == IF ~IsOk(EncTop(e.c, e.t, e.v)) THEN IF e.o = "ok" THEN "outcome: expected rej" ELSE "ok"
                ELSE IF e.o # "ok" THEN "outcome: expected ok"
                ELSE IF ~WalkTop(e.c, e.t, e.b) THEN "not the fields of the type"
                ELSE "ok"

\* aminoscan --color
Coloured(bz) == Cat([q \in 1..Len(bz) |-> IF bz[q] >= 33 /\ bz[q] < 127 THEN <<bz[q]>> ELSE HexText(<<bz[q]>>)])
CheckColour(e) == IF e.code # 0 THEN "crash"
                  ELSE IF e.out # Coloured(e.b) THEN "colours: expected " \o ToString(Coloured(e.b))
                  ELSE "ok"

\* aminoscan --concrete-name
ConcreteLines(n) == LET x == NameDisfix(n)
                    IN << <<68, 105, 115, 97, 109, 98, 32, 98, 121, 116, 101, 115, 58, 32>> \o HexText(x.d),
                          <<80, 114, 101, 102, 105, 120, 32, 98, 121, 116, 101, 115, 58, 32>> \o HexText(x.p) >>
CheckConcrete(e) == IF e.code # 0 THEN "crash"
                    ELSE IF e.lines # ConcreteLines(e.n) THEN "lines: expected " \o ToString(ConcreteLines(e.n))
                    ELSE "ok"
=============================================================================
