---------------------------- MODULE AminoEvents ----------------------------
(* The events that are recorded from the real code: which of them the       *)
(* specification allows in a state, and the state after them.               *)
EXTENDS AminoPrim, AminoRegistry, AminoScan, TLC

Yes == "ok"

----------------------------------------------------------------------------
(* Binary encoding and decoding *)

EncOf(e) == IF e.lp = 1 THEN EncTopLP(e.c, e.t, e.v) ELSE EncTop(e.c, e.t, e.v)
DecOf(e) == IF e.lp = 1 THEN DecTopLP(e.c, e.t, e.b, e.tv) ELSE DecTop(e.c, e.t, e.b, e.tv)

\* C01.  What the specification refuses (nil elements that empty_elements
\* excludes) is refused.
CheckRT(e) ==
  LET r == EncOf(e)
  IN IF ~IsOk(r) THEN (IF e.eo = "err" THEN Yes ELSE "encoded: expected rej")
     ELSE IF e.eo # "ok" THEN "not encoded"
     ELSE IF e.do # "ok" THEN "not decoded"
     ELSE IF ~Same(e.c, e.t, e.v, e.w) THEN "other value"
     ELSE Yes

\* Nil pointers at top level or in an interface are a mistake of the caller.
MayPanic(e) == ~Deref(e.t, e.v)[1] \/ NilInIface(e.t, e.v)

CheckEnc(e) ==
  LET r == EncOf(e)
  IN IF e.o # r.o /\ ~(r.o = "rej" /\ (e.o = "err" \/ (e.o = "panic" /\ MayPanic(e))))
     THEN "outcome: expected " \o r.o
     ELSE IF r.o = "ok" /\ e.b # r.b THEN "bytes: expected " \o ToString(r.b)
     ELSE Yes

\* In KB: bounded by the input, with room for the codec's own tables.
AllocOk(e) == e.al <= 4000 + 4 * Len(e.b)

CheckDec(e) ==
  LET r == DecOf(e)
  IN IF r.o = "rej" THEN (IF e.o = "err" THEN Yes ELSE "outcome: expected rej")
     ELSE IF e.o # "ok" THEN "outcome: expected ok"
     ELSE IF ~Eq(e.t, r.v, e.v) THEN "value: expected " \o ToString(r.v)
     ELSE Yes

CheckTotal(e) == IF e.o \notin {"ok", "err"} THEN "crash"
                 ELSE IF ~AllocOk(e) THEN "allocation"
                 ELSE Yes

\* C03: the outcomes of several ways of encoding a value.
RECURSIVE NilTimePtr(_, _)
NilTimePtr(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN NilTimePtr(ty.repr, v)
     ELSE CASE ty.k = "ptr" -> IF v = <<>> THEN K(Base(t)) = "time" ELSE NilTimePtr(ty.e, v[1])
            [] ty.k \in ListKinds /\ ~IsBytes(t) ->
                 LET l == ListOf(t, v) IN \E q \in 1..Len(l) : NilTimePtr(ty.e, l[q])
            [] ty.k = "struct" -> \E q \in 1..Len(ty.f) : Kept(ty.f[q]) /\ NilTimePtr(ty.f[q].t, v[q])
            [] ty.k = "iface" -> v # <<>> /\ v[1].d >= 0 /\ NilTimePtr(v[1].t, v[1].v)
            [] OTHER -> FALSE

CheckEncs(e) ==
  LET o == e.outs
      bare == {q \in 1..Len(o) : o[q].l = 0 /\ o[q].o = "ok"}
      lp == {q \in 1..Len(o) : o[q].l = 1 /\ o[q].o = "ok"}
      first == o[1]
  IN IF first.o # "ok"
     THEN IF \E q \in 1..Len(o) : o[q].o = "ok" THEN "encoded in one way and not in another" ELSE Yes
     ELSE IF \E q \in 1..Len(o) : o[q].o # "ok" THEN "encoded in one way and not in another"
     ELSE IF \E q \in bare : o[q].b # first.b THEN "other bytes"
     ELSE IF \E q \in lp : o[q].b # LenPrefixed(first.b) THEN "other length-prefixed bytes"
     ELSE IF e.do # "ok" \/ NilTimePtr(e.t, e.v) THEN Yes
     ELSE IF e.ro # "ok" \/ e.re # first.b THEN "other bytes after decoding"
     ELSE Yes

\* C07.  Restrict: the value of an older type in one of a newer type.
RECURSIVE Narrow(_, _, _)
Narrow(old, new, v) ==
  IF old = new THEN v
  ELSE LET a == Types[old]
           b == Types[new]
       IN CASE b.k = "ptr" -> IF v = <<>> THEN v ELSE <<Narrow(a.e, b.e, v[1])>>
            [] b.k = "slice" -> IF v = <<>> THEN v
                                ELSE <<Force([q \in 1..Len(v[1]) |-> Narrow(a.e, b.e, v[1][q])])>>
            [] b.k = "array" -> Force([q \in 1..Len(v) |-> Narrow(a.e, b.e, v[q])])
            [] b.k = "struct" -> Force([q \in 1..Len(a.f) |->
                                   IF Kept(a.f[q]) THEN Narrow(a.f[q].t, b.f[q].t, v[q]) ELSE <<>>])
            [] OTHER -> v

\* Whether the fields that the newer type adds are at their defaults.
RECURSIVE AddedDefault(_, _, _)
AddedDefault(old, new, v) ==
  IF old = new THEN TRUE
  ELSE LET a == Types[old]
           b == Types[new]
       IN CASE b.k = "ptr" -> IF v = <<>> THEN TRUE ELSE AddedDefault(a.e, b.e, v[1])
            [] b.k = "slice" -> IF v = <<>> THEN TRUE
                                ELSE \A q \in 1..Len(v[1]) : AddedDefault(a.e, b.e, v[1][q])
            [] b.k = "array" -> \A q \in 1..Len(v) : AddedDefault(a.e, b.e, v[q])
            [] b.k = "struct" -> \A q \in 1..Len(b.f) :
                 Kept(b.f[q]) =>
                   IF q <= Len(a.f) THEN AddedDefault(a.f[q].t, b.f[q].t, v[q])
                   ELSE Eq(b.f[q].t, DefaultV(b.f[q].t), v[q])
            [] OTHER -> TRUE

\* e.t: the type that is encoded, e.tt: the one that is decoded.
CheckEvo(e) ==
  LET r == EncTop(e.c, e.t, e.v)
  IN IF ~IsOk(r) \/ ~TypeOkTab[e.c][Base(e.tt)] THEN (IF e.eo = "ok" /\ ~IsOk(r) THEN "encoded: expected rej" ELSE Yes)
     ELSE IF e.eo # "ok" THEN "not encoded"
     ELSE IF e.do # "ok" THEN "not decoded"
     ELSE IF e.down = 1
     THEN IF Same(e.c, e.tt, Narrow(e.tt, e.t, e.v), e.w) THEN Yes ELSE "other value"
     ELSE IF ~Same(e.c, e.t, e.v, Narrow(e.t, e.tt, e.w)) THEN "other value"
     ELSE IF ~AddedDefault(e.t, e.tt, e.w) THEN "added field not at its default"
     ELSE IF e.b0 # e.b1 THEN "other bytes with default fields added"
     ELSE Yes

\* C06
CheckPrim(e) ==
  LET r == PrimEnc(e.p, e.v)
  IN IF e.eo # (IF IsOk(r) THEN "ok" ELSE "err") THEN "outcome: expected " \o r.o
     ELSE IF ~IsOk(r) THEN Yes
     ELSE IF e.b # r.b THEN "bytes: expected " \o ToString(r.b)
     ELSE IF e.sz >= 0 /\ e.sz # Len(r.b) THEN "size"
     ELSE IF e.do # "ok" \/ e.w # e.v \/ e.n # Len(e.b) THEN "not decoded to the same"
     ELSE Yes

CheckPrimD(e) ==
  LET r == PrimDec(e.p, e.b)
  IN IF e.o # (IF IsOk(r) THEN "ok" ELSE "err") THEN "outcome: expected " \o r.o
     ELSE IF e.n < 0 \/ e.n > Len(e.b) THEN "consumed more than there is"
     ELSE IF ~IsOk(r) THEN Yes
     ELSE IF e.w # r.v THEN "value: expected " \o ToString(r.v)
     ELSE IF e.n # r.n THEN "consumed: expected " \o ToString(r.n)
     ELSE Yes

\* C17.  The same instant in other locations and with a monotonic reading.
CheckTime(e) ==
  LET r == EncTime(e.v)
  IN IF ~IsOk(r) THEN (IF e.o # "err" \/ \E q \in 1..Len(e.outs) : e.outs[q] # <<256>> THEN "outcome: expected rej" ELSE Yes)
     ELSE IF e.o # "ok" THEN "outcome: expected ok"
     ELSE IF e.b # r.b THEN "bytes: expected " \o ToString(r.b)
     ELSE IF \E q \in 1..Len(e.outs) : e.outs[q] # r.b THEN "other bytes for the same instant"
     ELSE IF e.do # "ok" \/ e.w # e.v \/ e.n # Len(e.b) THEN "not decoded to the same"
     ELSE Yes

\* C18.  What a copy of a value is: types with their own methods (dc) count
\* that these were used in their first field.
Bump(v) == [v EXCEPT ![1] = AddN(@, 1)]
RECURSIVE CopyV(_, _)
CopyV(t, v) ==
  LET ty == Types[t]
  IN CASE ty.dc = "inc" /\ ty.k = "iface" -> IF v = <<>> THEN v ELSE <<[v[1] EXCEPT !.v = Bump(@)]>>
       [] ty.dc = "inc" -> Bump(v)
       [] ty.dc = "am" -> [v EXCEPT ![1] = U8(100)]
       [] ty.dc = "list" -> IF v = <<>> THEN v ELSE <<Bump(v[1])>>
       [] ty.repr # 0 -> v
       [] ty.k = "ptr" -> IF v = <<>> THEN v ELSE <<CopyV(ty.e, v[1])>>
       [] ty.k = "slice" /\ ~IsBytes(t) ->
            IF v = <<>> THEN v ELSE <<Force([q \in 1..Len(v[1]) |-> CopyV(ty.e, v[1][q])])>>
       [] ty.k = "array" /\ ~IsBytes(t) -> Force([q \in 1..Len(v) |-> CopyV(ty.e, v[q])])
       [] ty.k = "map" -> IF v = <<>> THEN v
                          ELSE <<Force([q \in 1..Len(v[1]) |-> <<v[1][q][1], CopyV(ty.e, v[1][q][2])>>])>>
       [] ty.k = "struct" -> Force([q \in 1..Len(ty.f) |-> IF ty.f[q].x = 1 THEN CopyV(ty.f[q].t, v[q]) ELSE <<>>])
       [] ty.k = "iface" -> IF v = <<>> \/ v[1].d < 0 THEN v ELSE <<[v[1] EXCEPT !.v = CopyV(v[1].t, @)]>>
       [] OTHER -> v

CheckCopy(e) ==
  IF e.o # "ok" THEN "outcome: expected ok"
  ELSE IF e.same # 1 THEN "other type"
  ELSE IF e.v2 # e.v THEN "original changed"
  ELSE IF e.w # CopyV(e.t, e.v) THEN "copy: expected " \o ToString(CopyV(e.t, e.v))
  ELSE IF e.tz # e.tzc THEN "other locations"
  ELSE IF \E a \in 1..Len(e.ms), b \in 1..Len(e.mc) : e.ms[a][1] < e.mc[b][2] /\ e.mc[b][1] < e.ms[a][2]
       THEN "shared memory"
  ELSE Yes
\* The state of a session is the original and its copy.
CheckMut(e, s) == IF e.side = 0 THEN (IF e.w = s.w THEN Yes ELSE "the copy changed with the original")
                  ELSE IF e.v = s.v THEN Yes ELSE "the original changed with the copy"

\* C08 and C09.  The state of a session is where its stream stands:
\* [b |-> its bytes, end |-> what follows them, at |-> bytes read].
CheckRead(e, s) ==
  LET rest == Drop(s.b, s.at)
      r == ReadMsg(e.c, e.t, rest, s.end, e.max, e.tv)
  IN IF e.o # r.o THEN "outcome: expected " \o r.o
     ELSE IF e.at < s.at + r.lo \/ e.at > s.at + r.hi THEN "bytes read: expected at most " \o ToString(r.hi)
     ELSE IF r.o = "ok" /\ e.n # r.hi THEN "count: expected " \o ToString(r.hi)
     ELSE IF r.o = "ok" /\ ~Eq(e.t, r.v, e.v) THEN "value: expected " \o ToString(r.v)
     ELSE IF e.al > 4000 + 4 * Len(rest) THEN "allocation"
     ELSE Yes

CheckWrite(e) ==
  LET r == WriteMsg(e.c, e.t, e.v, e.room)
  IN IF e.o # r.o THEN "outcome: expected " \o r.o
     ELSE IF e.b # r.b THEN "bytes: expected " \o ToString(r.b)
     ELSE IF e.n # Len(r.b) THEN "count"
     ELSE Yes

\* C10
CheckName(e) ==
  LET x == NameDisfix(e.n)
      five == <<8, 5>>                       \* the value: field 1 is 5
      dis == IF e.alw = 1 THEN <<0>> \o x.d ELSE <<>>
      inner == dis \o x.p \o five
  IN IF e.d # x.d \/ e.p # x.p THEN "bytes: expected " \o ToString(<<x.d, x.p>>)
     ELSE IF e.enc # x.p \o five THEN "encoding at top level"
     ELSE IF e.ifc # <<10, Len(inner)>> \o inner THEN "encoding in an interface"
     ELSE IF e.do # "ok" THEN "not decoded"
     ELSE IF e.row # Row(Types[e.t].tn, e.n, x.p, Types[e.t].size) THEN "listing"
     ELSE Yes

\* C14 to C16.
CheckJRT(e) ==
  LET r == EncJTop(e.c, e.t, e.v, e.fl)
  IN IF ~IsOk(r) THEN (IF e.eo = "err" THEN Yes ELSE "encoded: expected rej")
     ELSE IF e.eo # "ok" THEN "not encoded"
     ELSE IF e.do # "ok" THEN "not decoded"
     ELSE IF ~JEq(e.t, Norm(e.c, e.t, e.v), e.w) THEN "other value: expected " \o ToString(Norm(e.c, e.t, e.v))
     ELSE Yes

CheckJEnc(e) ==
  LET r == EncJTop(e.c, e.t, e.v, e.fl)
      may == NilInIface(e.t, e.v)
  IN IF ~IsOk(r)
     THEN IF e.o = "ok" \/ (e.o = "panic" /\ ~may) THEN "outcome: expected rej" ELSE Yes
     ELSE IF e.o # "ok" THEN "outcome: expected ok"
     ELSE IF e.b # r.b THEN "text: expected " \o ToString(r.b)
     ELSE IF \E q \in 1..Len(e.outs) : e.outs[q] # r.b THEN "another text"
     ELSE IF Tree(r.b).k = "bad" THEN "no text"
     ELSE IF e.ind = <<>> THEN Yes
     ELSE LET x == Indented(r.b, Tree(r.b), e.ind[1], e.ind[2], 0)
          IN IF e.ind[3] = x THEN Yes ELSE "indented: expected " \o ToString(x)

CheckJDec(e) ==
  LET r == DecJTop(e.c, e.t, e.b, e.tv, e.fl)
  IN IF ~IsOk(r) THEN (IF e.o = "err" THEN Yes ELSE "outcome: expected rej")
     ELSE IF e.o # "ok" THEN "outcome: expected ok"
     ELSE IF ~JEq(e.t, r.v, e.v) THEN "value: expected " \o ToString(r.v)
     ELSE Yes

\* C20.  The state of a session is what every object that somebody holds is:
\* buffers, over their whole capacity, and values.  A call reads the objects
\* that it is given and makes at most one new, the last; only an object that
\* is the target of a call, or which its holder writes over, changes.
Changed(e) == CASE e.op = "ascrib" -> {e.i}
                [] e.op = "adec" -> {e.into}
                [] OTHER -> {}
MadeBy(e) == IF e.op = "amake" \/ (e.op \in {"aenc", "aslice"} /\ e.o = "ok")
                \/ (e.op = "adec" /\ e.o = "ok" /\ e.into = 0) THEN 1 ELSE 0
CheckHeap(e, s) ==
  IF Len(e.h) # Len(s) + MadeBy(e) THEN "objects"
  ELSE IF \E q \in 1..Len(s) : q \notin Changed(e) /\ e.h[q] # s[q]
       THEN "changed: object " \o ToString(CHOOSE q \in 1..Len(s) : q \notin Changed(e) /\ e.h[q] # s[q])
  ELSE Yes
Overlap(a, b) == \E p \in 1..Len(a), q \in 1..Len(b) : a[p][1] < b[q][2] /\ b[q][1] < a[p][2]
CheckAlias(e, s) ==
  LET h == CheckHeap(e, s)
      new == e.h[Len(e.h)]
  IN IF h # Yes THEN h
     ELSE CASE e.op = "aenc" ->
                 LET x == e @@ [v |-> s[e.i], lp |-> e.form, outs |-> <<>>, ind |-> <<>>]
                     c == IF e.form = 2 THEN CheckJEnc(x) ELSE CheckEnc(x)
                 IN IF c # Yes THEN c
                    ELSE IF e.o = "ok" /\ Take(new, Len(e.b)) # e.b THEN "not in its buffer"
                    ELSE Yes
            [] e.op = "adec" ->
                 LET x == e @@ [b |-> Take(s[e.i], e.n), lp |-> e.form]
                 IN IF e.into > 0 /\ e.tv # s[e.into] THEN "another target"
                    ELSE IF e.form = 2 THEN CheckJDec(x) ELSE CheckDec(x)
            [] e.op = "aslice" ->
                 LET r == PrimDec("bytes", Take(s[e.i], e.n))
                 IN IF e.o # (IF IsOk(r) THEN "ok" ELSE "err") THEN "outcome: expected " \o r.o
                    ELSE IF ~IsOk(r) THEN Yes
                    ELSE IF e.w # r.v \/ e.used # r.n \/ Take(new, Len(e.w)) # e.w THEN "bytes: expected " \o ToString(r.v)
                    ELSE Yes
            [] e.op = "amem" ->
                 IF \E p, q \in 1..Len(e.ms) : p < q /\ Overlap(e.ms[p], e.ms[q]) THEN "shared memory" ELSE Yes
            [] OTHER -> Yes

\* C12, C13, C23, C24.  The state of a session is that of its codec.
Outcome(refuse, may, o) == IF refuse THEN (IF o = "panic" THEN Yes ELSE "not refused")
                           ELSE IF o = "ok" \/ (may /\ o = "panic") THEN Yes ELSE "refused"
CheckPrint(e, s) ==
  LET l == Listing(s)
      all == e.room < 0 \/ Len(l) <= e.room
  IN IF e.o # (IF all THEN "ok" ELSE "fail") THEN "outcome"
     ELSE IF e.b # (IF all THEN l ELSE Take(l, e.room)) THEN "listing: expected " \o ToString(l)
     ELSE Yes
CheckSealRace(e) ==
  IF \E q \in 1..Len(e.outs) : e.outs[q] \notin {"ok", "panic"} THEN "outcome"
  ELSE IF \E q \in 1..Len(e.outs) : e.before[q] # e.after[q] THEN "registered after sealing"
  ELSE IF \E q \in 1..Len(e.outs) : (e.after[q] = 1) # (e.outs[q] = "ok") THEN "registration lost"
  ELSE Yes
\* A call in a session of registrations: what it does is as it would be on a
\* codec which is new but for the registrations made.
CheckProbe(e, s, v) ==
  IF e.pkg = 0 /\ (Codecs[e.c].ifs # s.ifs \/ Codecs[e.c].cons # s.cons) THEN "other registrations"
  ELSE IF v # Yes THEN v
  ELSE IF e.must \notin {"", IF e.o = "ok" THEN "ok" ELSE "panic"} THEN "variant that panics"
  ELSE Yes
IsProbe(e) == "must" \in DOMAIN e

Check(e, s) ==
  CASE e.op = "new" -> Yes
    [] e.op = "name" -> CheckName(e)
    [] e.op = "regif" -> Outcome(RefuseIf(s, e), FALSE, e.o)
    [] e.op = "regcon" -> Outcome(RefuseCon(s, e), MayRefuseCon(s, e), e.o)
    [] e.op = "seal" -> IF e.o = "ok" /\ e.same = 1 THEN Yes ELSE "sealing"
    [] e.op = "print" -> CheckPrint(e, s)
    [] e.op = "bad" -> IF e.o = "ok" THEN "did not fail" ELSE Yes
    [] e.op = "sealrace" -> CheckSealRace(e)
    [] e.op = "enc" /\ IsProbe(e) -> CheckProbe(e, s, CheckEnc(e))
    [] e.op = "dec" /\ IsProbe(e) -> CheckProbe(e, s, CheckDec(e))
    [] e.op = "rt" -> CheckRT(e)
    [] e.op = "enc" -> CheckEnc(e)
    [] e.op = "dec" -> CheckDec(e)
    [] e.op = "total" -> CheckTotal(e)
    [] e.op = "encs" -> CheckEncs(e)
    [] e.op = "evo" -> CheckEvo(e)
    [] e.op = "jrt" -> CheckJRT(e)
    [] e.op = "jenc" -> CheckJEnc(e)
    [] e.op = "jdec" -> CheckJDec(e)
    [] e.op = "time" -> CheckTime(e)
    [] e.op = "copy" -> CheckCopy(e)
    [] e.op = "mut" -> CheckMut(e, s)
    [] e.op = "anew" -> Yes
    [] e.op \in {"amake", "aenc", "adec", "aslice", "ascrib", "amem"} -> CheckAlias(e, s)
    [] e.op = "walk" -> CheckWalk(e)
    [] e.op = "scan" -> CheckScan(e)
    [] e.op = "colour" -> CheckColour(e)
    [] e.op = "concrete" -> CheckConcrete(e)
    [] e.op = "prim" -> CheckPrim(e)
    [] e.op = "primd" -> CheckPrimD(e)
    [] e.op = "stream" -> Yes
    [] e.op = "read" -> CheckRead(e, s)
    [] e.op = "write" -> CheckWrite(e)
    [] OTHER -> "unknown event"

\* The state of a session after an event.
After(e, s) ==
  CASE e.op = "stream" -> [b |-> e.b, end |-> e.end, at |-> 0]
    [] e.op = "read" -> [s EXCEPT !.at = e.at]
    [] e.op \in {"copy", "mut"} -> [v |-> e.v, w |-> e.w]
    [] e.op = "anew" -> <<>>
    [] e.op \in {"amake", "aenc", "adec", "aslice", "ascrib", "amem"} -> e.h
    [] e.op = "new" -> NewReg
    [] e.op = "regif" -> IF e.o = "ok" THEN AddIf(s, [t |-> e.t, alw |-> e.alw, prio |-> e.prio]) ELSE s
    [] e.op = "regcon" -> IF e.o = "ok" THEN AddCon(s, [t |-> e.t, n |-> e.n, ptr |-> e.ptr]) ELSE s
    [] e.op = "seal" -> [s EXCEPT !.sealed = TRUE]
    [] e.op = "bad" -> [s EXCEPT !.maybe = @ \cup Closure({e.ts[q] : q \in 1..Len(e.ts)})]
    [] e.op \in {"enc", "dec"} /\ IsProbe(e) ->
         IF e.pkg = 1 THEN s
         ELSE Use(s, e.t, IF e.op = "enc" THEN Dynamic(e.t, e.v) ELSE {}, e.o = "ok", e.op = "dec")
    [] OTHER -> s

=============================================================================
