--------------------------- MODULE AminoRegistry ---------------------------
(* What a codec knows: the registrations made on it, the types that it has  *)
(* used without registration, and whether it is sealed.                     *)
(*                                                                          *)
(* The state of a codec is a record                                         *)
(*   ifs     the registered interfaces, <<[t, alw, prio]>>; prio holds names*)
(*   cons    the registered concrete types, <<[t, n, ptr]>>, n an index in  *)
(*           Names                                                          *)
(*   sealed                                                                 *)
(*   used    the unregistered types that it has certainly used              *)
(*   maybe   those that it may have used: which of the types inside a value *)
(*           have been needed depends on the value                          *)
EXTENDS AminoFraming

NewReg == [ifs |-> <<>>, cons |-> <<>>, sealed |-> FALSE, used |-> {}, maybe |-> {}]

HasIf(s, t) == \E q \in 1..Len(s.ifs) : s.ifs[q].t = t
HasCon(s, t) == \E q \in 1..Len(s.cons) : s.cons[q].t = t
HasName(s, n) == \E q \in 1..Len(s.cons) : Names[s.cons[q].n] = Names[n]

\* Two implementers (by their pointers) of an interface with equal prefixes,
\* of which not all are in the interface's priority list.
PrioConflict(itf, cons) ==
  LET impl == {q \in 1..Len(cons) : Has(Types[cons[q].t].impP, itf.t)}
  IN \E a, b \in impl : /\ a # b
                        /\ NameTab[cons[a].n].p = NameTab[cons[b].n].p
                        /\ ~Has(itf.prio, Names[cons[a].n])

\* Whether a registration must be refused.
RefuseIf(s, r) == s.sealed \/ HasIf(s, r.t) \/ PrioConflict(r, s.cons)
RefuseCon(s, r) ==
  \/ s.sealed
  \/ HasCon(s, r.t)
  \/ r.t \in s.used
  \/ HasName(s, r.n)
  \/ \E q \in 1..Len(s.ifs) : PrioConflict(s.ifs[q], Append(s.cons, r))
\* Whether it may be refused.
MayRefuseCon(s, r) == RefuseCon(s, r) \/ r.t \in s.maybe

AddIf(s, r) == [s EXCEPT !.ifs = Append(@, r)]
AddCon(s, r) == [s EXCEPT !.cons = Append(@, r)]

----------------------------------------------------------------------------
(* The types that a call uses *)

\* Those inside a set of types.
Inside(t) ==
  LET ty == Types[t]
      subs == IF ty.k \in {"slice", "array", "ptr", "map"} THEN {ty.e}
              ELSE IF ty.k = "struct" THEN {ty.f[q].t : q \in 1..Len(ty.f)} ELSE {}
  IN subs \cup (IF ty.repr # 0 THEN {ty.repr} ELSE {})
RECURSIVE Closure(_)
Closure(ts) == LET more == ts \cup UNION {Inside(t) : t \in ts}
               IN IF more = ts THEN ts ELSE Closure(more)

\* The concrete types of the interfaces in a value.
RECURSIVE Dynamic(_, _)
Dynamic(t, v) ==
  LET ty == Types[t]
  IN IF ty.repr # 0 THEN Dynamic(ty.repr, v)
     ELSE CASE ty.k = "ptr" -> IF v = <<>> THEN {} ELSE Dynamic(ty.e, v[1])
            [] ty.k \in ListKinds /\ ~IsBytes(t) ->
                 LET l == ListOf(t, v) IN UNION {Dynamic(ty.e, l[q]) : q \in 1..Len(l)}
            [] ty.k = "struct" -> UNION {IF Kept(ty.f[q]) THEN Dynamic(ty.f[q].t, v[q]) ELSE {} : q \in 1..Len(ty.f)}
            [] ty.k = "iface" -> IF v = <<>> THEN {}
                                 ELSE {v[1].t} \cup (IF v[1].d < 0 THEN {} ELSE Dynamic(v[1].t, v[1].v))
            [] OTHER -> {}

\* A call with a value (or target) of type t, whose interfaces hold values of
\* the types dyn, and of the registered ones when decoding.
Use(s, t, dyn, ok, dec) ==
  LET regs == IF dec THEN {s.cons[q].t : q \in 1..Len(s.cons)} ELSE {}
      may == Closure({t} \cup dyn \cup regs)
      unreg == {u \in may : ~HasCon(s, u)}
      b == Base(t)
  IN [s EXCEPT !.maybe = @ \cup unreg,
               !.used = IF ok /\ b \in unreg THEN @ \cup {b} ELSE @]

----------------------------------------------------------------------------
(* The listing *)

HexDigits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
HexCaps(b) == Cat([q \in 1..Len(b) |-> <<HexDigits[b[q] \div 16 + 1], HexDigits[(b[q] % 16) + 1]>>])

Header == <<124, 32, 84, 121, 112, 101, 32, 124, 32, 78, 97, 109, 101, 32, 124, 32, 80, 114, 101, 102, 105, 120, 32, 124, 32,
            76, 101, 110, 103, 116, 104, 32, 124, 32, 78, 111, 116, 101, 115, 32, 124, 10,
            124, 32, 45, 45, 45, 45, 32, 124, 32, 45, 45, 45, 45, 32, 124, 32, 45, 45, 45, 45, 45, 45, 32, 124, 32,
            45, 45, 45, 45, 45, 32, 124, 32, 45, 45, 45, 45, 45, 45, 32, 124, 10>>
Bar == <<32, 124, 32>>
\* | type | name | 0xPREFIX | length |  |
Row(tn, name, p, size) ==
  <<124, 32>> \o tn \o Bar \o name \o Bar \o <<48, 120>> \o HexCaps(p) \o Bar \o size \o Bar \o <<32, 124, 10>>

Listing(s) ==
  Header \o Cat([q \in 1..Len(s.cons) |->
                   LET r == s.cons[q]
                   IN Row(Types[r.t].tn, Names[r.n], NameTab[r.n].p, Types[r.t].size)])
=============================================================================
