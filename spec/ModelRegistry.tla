---------------------------- MODULE ModelRegistry ----------------------------
(* All histories, up to some length, of some registrations and other calls  *)
(* on one codec (the operations of the environment, made by the driver      *)
(* "regenv"): the guarantees of the registry are invariants here, and each  *)
(* history is printed, for the real code to go through.                     *)
EXTENDS AminoEvents

Ops == Env.ops   \* [op, t, alw, prio, n, ptr, dyn]

NumOf(s) == CHOOSE n \in 0..200 : ToString(n) = s
Shard == NumOf(IOEnv.AMINO_SHARD)
Shards == NumOf(IOEnv.AMINO_SHARDS)
Length == NumOf(IOEnv.AMINO_LENGTH)
Stride == NumOf(IOEnv.AMINO_STRIDE)    \* every how many-th long history

VARIABLES reg, hist, ever   \* ever: what was registered when it was sealed

Itf(o) == [t |-> o.t, alw |-> o.alw, prio |-> o.prio]
Con(o) == [t |-> o.t, n |-> o.n, ptr |-> o.ptr]

\* Whether a registration is refused, may be, and what it does.
Refused(s, o) == IF o.op = "regif" THEN RefuseIf(s, Itf(o)) ELSE RefuseCon(s, Con(o))
MayBe(s, o) == IF o.op = "regif" THEN Refused(s, o) ELSE MayRefuseCon(s, Con(o))
Add(s, o) == IF o.op = "regif" THEN AddIf(s, Itf(o)) ELSE AddCon(s, Con(o))

RECURSIVE Hash(_)
Hash(h) == IF h = <<>> THEN 0 ELSE (7 * Hash(Tail(h)) + 3 * h[1]) % 1009

Init == /\ reg = NewReg /\ ever = <<>>
        /\ \E q \in 1..Len(Ops) : q % Shards = Shard /\ hist = <<-q>>

\* The first operation was chosen before, to share the work.
Opening == hist[1] < 0
Chosen == IF Opening THEN {-hist[1]} ELSE 1..Len(Ops)

Effects(o) ==
  CASE o.op \in {"regif", "regcon"} -> (IF Refused(reg, o) THEN {} ELSE {Add(reg, o)}) \cup (IF MayBe(reg, o) THEN {reg} ELSE {})
    [] o.op = "seal" -> {[reg EXCEPT !.sealed = TRUE]}
    [] o.op \in {"enc", "dec"} -> {Use(reg, o.t, {o.dyn[q] : q \in 1..Len(o.dyn)}, ok, o.op = "dec") : ok \in BOOLEAN}
    [] o.op = "bad" -> {[reg EXCEPT !.maybe = @ \cup Closure({o.dyn[q] : q \in 1..Len(o.dyn)})]}
    [] OTHER -> {reg}

Next == /\ Len(hist) < Length \/ Opening
        /\ \E q \in Chosen :
             /\ hist' = IF Opening THEN <<q>> ELSE Append(hist, q)
             /\ reg' \in Effects(Ops[q])
             /\ ever' = IF reg.sealed THEN ever ELSE <<reg'.ifs, reg'.cons>>
             /\ (Len(hist') = Length /\ Hash(hist') % Stride = 0) => PrintT("CASE history " \o ToJson(hist'))

----------------------------------------------------------------------------
(* C12: no two registrations of one type or name, and no two implementers   *)
(* of an interface that could be taken for one another unless the           *)
(* interface's list resolves it.                                            *)
Unique ==
  /\ \A a, b \in 1..Len(reg.ifs) : reg.ifs[a].t = reg.ifs[b].t => a = b
  /\ \A a, b \in 1..Len(reg.cons) : (reg.cons[a].t = reg.cons[b].t \/ Names[reg.cons[a].n] = Names[reg.cons[b].n]) => a = b
Unambiguous == \A q \in 1..Len(reg.ifs) : ~PrioConflict(reg.ifs[q], reg.cons)

\* Every implementer is found again by the bytes that it is written with.
Impl(t) == {q \in 1..Len(reg.cons) : Has(Types[reg.cons[q].t].impP, t)}
Found ==
  \A q \in 1..Len(reg.ifs) :
    LET impl == Impl(reg.ifs[q].t)
        P(a) == NameTab[reg.cons[a].n].p
        D(a) == NameTab[reg.cons[a].n].d
    IN \A a \in impl :
         LET same == {b \in impl : P(b) = P(a)}
         IN IF reg.ifs[q].alw = 1 \/ Cardinality(same) > 1
            THEN {b \in impl : P(b) = P(a) /\ D(b) = D(a)} = {a}
            ELSE same = {a}

(* C13 *)
Sealed == reg.sealed => ever \in {<<>>, <<reg.ifs, reg.cons>>}

(* C03, C12: what is registered is accepted in every other order too. *)
RECURSIVE Accepts(_, _)
Accepts(s, os) == IF os = <<>> THEN TRUE
                  ELSE ~Refused(s, os[1]) /\ Accepts(Add(s, os[1]), Tail(os))
OfIf(r) == [op |-> "regif", t |-> r.t, alw |-> r.alw, prio |-> r.prio]
OfCon(r) == [op |-> "regcon", t |-> r.t, n |-> r.n, ptr |-> r.ptr]
Made == Force([q \in 1..Len(reg.ifs) |-> OfIf(reg.ifs[q])]) \o Force([q \in 1..Len(reg.cons) |-> OfCon(reg.cons[q])])
OrderFree ==
  \A p \in Permutations(1..Len(Made)) : Accepts(NewReg, Force([q \in 1..Len(Made) |-> Made[p[q]]]))

\* And what is refused in one order is refused in every other.
Regs == {q \in 1..Len(Ops) : Ops[q].op \in {"regif", "regcon"}}
RefusedFree ==
  Opening => \A a, b, c \in Regs :
    Cardinality({a, b, c}) = 3 /\ a < b =>
      Accepts(NewReg, <<Ops[a], Ops[b], Ops[c]>>) = Accepts(NewReg, <<Ops[c], Ops[b], Ops[a]>>)
=============================================================================
