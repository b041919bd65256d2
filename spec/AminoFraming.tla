---------------------------- MODULE AminoFraming ----------------------------
(* Length-prefixed messages in a stream of bytes: what a call of            *)
(* UnmarshalBinaryLengthPrefixedReader may do, and what one of              *)
(* MarshalBinaryLengthPrefixedWriter must do.                               *)
EXTENDS AminoBinary

\* The stream from where the call starts: rest, what follows its last byte
\* (end: "eof" or "fail", an error of the reader), and the limit max (8
\* bytes, zero for none).
\*
\* The prefix: what reading it gives.
\*   [o |-> "len", n, u]   a length u in a prefix of n bytes
\*   [o |-> "bad", n]      malformed or too long after at most n bytes
\*   [o |-> "end"]         the stream ends in it
ReadPrefix(rest, max) ==
  LET bound == IF max # Zero8 /\ ULess(max, U8(10)) THEN ToNat(max) ELSE 10
      avail == IF Len(rest) < bound THEN Len(rest) ELSE bound
      ends == {i \in 1..avail : rest[i] < 128}
  IN IF ends = {}
     THEN IF avail = bound THEN [o |-> "bad", n |-> bound] ELSE [o |-> "end"]
     ELSE LET n == CHOOSE i \in ends : \A j \in ends : i <= j
              r == ReadUvarint(rest)
          IN IF r.n = 0 THEN [o |-> "bad", n |-> n] ELSE [o |-> "len", n |-> n, u |-> r.u]

\* The outcome of a call: o is "ok", "err" (an error that is neither io.EOF
\* nor the reader's), "eof" or "fail"; the bytes read of the stream are
\* between lo and hi.
Out(o, lo, hi) == [o |-> o, lo |-> lo, hi |-> hi]

ReadMsg(c, t, rest, end, max, tv) ==
  LET p == ReadPrefix(rest, max)
      ended == IF end = "eof" THEN "err" ELSE "fail"
  IN IF p.o = "end" THEN IF rest = <<>> THEN Out(end, 0, 0) ELSE Out(ended, 0, Len(rest))
     ELSE IF p.o = "bad" THEN Out("err", 0, p.n)
     ELSE IF max # Zero8 /\ (Negative(p.u) \/ ULess(max, AddN(p.u, p.n))) THEN Out("err", 0, p.n)
     ELSE IF Negative(p.u) THEN Out("err", 0, p.n)
     ELSE IF ~Fits31(p.u) THEN Out(ended, 0, Len(rest))
     ELSE LET m == p.n + ToNat(p.u)
          IN IF ToNat(p.u) > Len(rest) - p.n THEN Out(ended, 0, Len(rest))
             ELSE LET r == DecTop(c, t, SubSeq(rest, p.n + 1, m), tv)
                  IN IF IsOk(r) THEN [o |-> "ok", lo |-> m, hi |-> m, v |-> r.v]
                     ELSE Out("err", 0, m)

\* How many bytes of a message a failing writer takes, and what the call
\* must report.
WriteMsg(c, t, v, room) ==
  LET r == EncTopLP(c, t, v)
  IN IF ~IsOk(r) THEN [o |-> "err", b |-> <<>>]
     ELSE IF room < 0 \/ Len(r.b) <= room THEN [o |-> "ok", b |-> r.b]
     ELSE [o |-> "fail", b |-> SubSeq(r.b, 1, room)]
=============================================================================
