----------------------------- MODULE ModelStream -----------------------------
(* A reader of length-prefixed messages as a machine that asks its stream   *)
(* for bytes and gets some of them at a time, or none, or its end, over all *)
(* short streams and all ways to get them.  Whatever the pieces, a call     *)
(* must end as ReadMsg says (C08), and take no more of the stream than it   *)
(* says (C09): the machine refines it.  Every behaviour is printed too, for *)
(* the real code to go through.                                             *)
EXTENDS AminoEvents

Targets == Env.targets     \* [c, t]

NumOf(s) == CHOOSE n \in 0..200 : ToString(n) = s
Shard == NumOf(IOEnv.AMINO_SHARD)
Shards == NumOf(IOEnv.AMINO_SHARDS)
Length == NumOf(IOEnv.AMINO_LENGTH)    \* of the longest stream
Stride == NumOf(IOEnv.AMINO_STRIDE)    \* every how many-th stream

Alphabet == {0, 1, 2, 8, 128, 130}
Limits == {0, 1, 2, 3, 5}
Calls == 2
Zeros == 1                              \* reads that give nothing, per call

VARIABLES stream, end, max, ti,         \* what is read, with what limit, as what
          at,                           \* bytes given so far
          call, from,                   \* the call, and where it started
          phase, n, u,                  \* its prefix so far, and the length in it
          got,                          \* bytes of the message so far
          zeros, pieces,                \* sizes of all that was given
          res                           \* the result of the last call

vars == <<stream, end, max, ti, at, call, from, phase, n, u, got, zeros, pieces, res>>

RECURSIVE Hash(_)
Hash(h) == IF h = <<>> THEN 0 ELSE (7 * Hash(Tail(h)) + 3 * h[1] + 1) % 1009

Streams == UNION {[1..k -> Alphabet] : k \in 0..Length}

Init == /\ \E s \in Streams, e \in {"eof", "fail"}, m \in Limits :
             LET h == Hash(Force(s)) + 5 * m + (IF e = "eof" THEN 0 ELSE 2)
             IN /\ h % (Shards * Stride) = Shard
                /\ stream = Force(s) /\ end = e /\ max = m
                /\ ti = 1 + ((h \div (Shards * Stride)) % Len(Targets))
        /\ at = 0 /\ call = 1 /\ from = 0 /\ phase = "prefix" /\ n = 0 /\ u = 0 /\ got = <<>>
        /\ zeros = Zeros /\ pieces = <<>> /\ res = ""

Rest == Len(stream) - at
Ended == IF end = "eof" THEN "err" ELSE "fail"
Pow(k) == CASE k = 0 -> 1 [] k = 1 -> 128 [] k = 2 -> 16384 [] k = 3 -> 2097152 [] OTHER -> 268435456

Finish(r) == res' = r /\ phase' = "done"

\* The reader gives nothing, and no error.
Nothing == /\ phase \in {"prefix", "body"} /\ zeros > 0 /\ Rest > 0
           /\ zeros' = zeros - 1 /\ pieces' = Append(pieces, 0)
           /\ UNCHANGED <<stream, end, max, ti, at, call, from, phase, n, u, got, res>>

\* A byte of the prefix, or none left, or none wanted any more.
InPrefix ==
  /\ phase = "prefix"
  /\ UNCHANGED <<stream, end, max, ti, call, from, got, zeros>>
  /\ IF n = 10 \/ (max # 0 /\ n >= max) THEN Finish("err") /\ UNCHANGED <<at, n, u, pieces>>
     ELSE IF Rest = 0 THEN Finish(IF n = 0 THEN end ELSE Ended) /\ UNCHANGED <<at, n, u, pieces>>
     ELSE LET x == stream[at + 1]
              l == u + (x % 128) * Pow(n)
          IN /\ at' = at + 1 /\ pieces' = Append(pieces, 1) /\ n' = n + 1 /\ u' = l
             /\ IF x >= 128 THEN UNCHANGED <<phase, res>>
                ELSE IF max # 0 /\ n + 1 + l > max THEN Finish("err")
                ELSE phase' = "body" /\ UNCHANGED res

\* Some bytes of the message.
InBody ==
  /\ phase = "body"
  /\ UNCHANGED <<stream, end, max, ti, call, from, n, u, zeros>>
  /\ IF Len(got) = u
     THEN /\ Finish(IF IsOk(DecTop(Targets[ti].c, Targets[ti].t, got, ZeroV(Targets[ti].t))) THEN "ok" ELSE "err")
          /\ UNCHANGED <<at, got, pieces>>
     ELSE IF Rest = 0 THEN Finish(Ended) /\ UNCHANGED <<at, got, pieces>>
     ELSE \E k \in 1..(IF Rest < u - Len(got) THEN Rest ELSE u - Len(got)) :
            /\ got' = got \o SubSeq(stream, at + 1, at + k)
            /\ at' = at + k /\ pieces' = Append(pieces, k)
            /\ UNCHANGED <<phase, res>>

Again == /\ phase = "done"
         /\ IF call < Calls
            THEN /\ call' = call + 1 /\ from' = at /\ phase' = "prefix" /\ n' = 0 /\ u' = 0 /\ got' = <<>> /\ zeros' = Zeros
                 /\ UNCHANGED <<stream, end, max, ti, at, pieces, res>>
            ELSE /\ phase' = "over" /\ PrintT("CASE read " \o ToJson(<<ti, stream, end, max, pieces>>))
                 /\ UNCHANGED <<stream, end, max, ti, at, call, from, n, u, got, zeros, pieces, res>>

Next == Nothing \/ InPrefix \/ InBody \/ Again

Expected == ReadMsg(Targets[ti].c, Targets[ti].t, Drop(stream, from), end, U8(max), ZeroV(Targets[ti].t))

\* C08: the pieces do not matter.
Refines == phase = "done" => res = Expected.o
\* C09: nor is more read than belongs to the message.
NoMore == at - from <= Expected.hi
Exactly == phase = "done" => at - from >= Expected.lo
\* A message fits the limit.
Fits == phase = "done" /\ res = "ok" /\ max # 0 => at - from <= max
=============================================================================
