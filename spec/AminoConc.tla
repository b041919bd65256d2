----------------------------- MODULE AminoConc -----------------------------
(* Concurrent calls recorded from the real code.  A session is a codec with *)
(* some registrations and then phases, in each of which several goroutines  *)
(* make calls, each in its own order.  The session is explained when some   *)
(* order of the calls gives what each of them returned: TLC looks for it,   *)
(* and every session for which there is one is printed as done.             *)
(*                                                                          *)
(* The registrations that the goroutines attempt are numbered by bits; the  *)
(* state has the set of those made, and the first event of a session has    *)
(* the codecs with the same registrations (subs, by the sum of the bits).   *)
EXTENDS AminoEvents

Trace == ndJsonDeserialize(IOEnv.AMINO_TRACE)

VARIABLES sess, phase, at, state

NewConc(s) ==
  LET base == Codecs[Trace[s][1].base]
  IN [reg |-> [NewReg EXCEPT !.ifs = base.ifs, !.cons = base.cons], made |-> 0]

\* Whether a call of the codec with some of the registrations gives what it
\* gave, for every call and set of registrations.
Codec == {"enc", "dec", "jenc", "jdec"}
CheckWith(e, c) ==
  CASE e.op = "enc" -> CheckEnc([e EXCEPT !.c = c])
    [] e.op = "dec" -> CheckDec([e EXCEPT !.c = c])
    [] e.op = "jenc" -> CheckJEnc([e EXCEPT !.c = c])
    [] e.op = "jdec" -> CheckJDec([e EXCEPT !.c = c])
Calls(s, p) == Trace[s][p].gs
Verdicts ==
  [s \in 1..Len(Trace) |->
    [p \in 1..Len(Trace[s]) |->
      IF p = 1 THEN <<>>
      ELSE [g \in 1..Len(Calls(s, p)) |->
             [q \in 1..Len(Calls(s, p)[g]) |->
               LET e == Calls(s, p)[g][q]
               IN IF e.op \in Codec THEN [m \in 1..Len(Trace[s][1].subs) |-> CheckWith(e, Trace[s][1].subs[m])]
                  ELSE <<>>]]]]
Inners ==
  [s \in 1..Len(Trace) |->
    [p \in 1..Len(Trace[s]) |->
      IF p = 1 THEN <<>>
      ELSE [g \in 1..Len(Calls(s, p)) |->
             [q \in 1..Len(Calls(s, p)[g]) |->
               LET e == Calls(s, p)[g][q]
               IN IF e.op \in {"enc", "jenc"} THEN Dynamic(e.t, e.v) ELSE {}]]]]

CheckC(e, s, p, g, q, st) == IF e.op \in Codec THEN Verdicts[s][p][g][q][st.made + 1] ELSE Check(e, st.reg)

AfterC(e, s, p, g, q, st) ==
  CASE e.op \in {"enc", "jenc"} -> [st EXCEPT !.reg = Use(@, e.t, Inners[s][p][g][q], e.o = "ok", FALSE)]
    [] e.op \in {"dec", "jdec"} -> [st EXCEPT !.reg = Use(@, e.t, {}, e.o = "ok", TRUE)]
    [] e.op \in {"regif", "regcon"} -> [reg |-> After(e, st.reg), made |-> IF e.o = "ok" THEN st.made + e.bit ELSE st.made]
    [] OTHER -> [st EXCEPT !.reg = After(e, @)]

Begin(s, p) == Force([g \in 1..Len(Calls(s, p)) |-> 0])
Explain == "AMINO_EXPLAIN" \in DOMAIN IOEnv
Over == at # <<>> /\ \A g \in 1..Len(at) : at[g] = Len(Calls(sess, phase)[g])

Init == /\ sess \in 1..Len(Trace)
        /\ phase = 2
        /\ at = Begin(sess, 2)
        /\ state = NewConc(sess)

Call(g) == /\ at[g] < Len(Calls(sess, phase)[g])
           /\ LET e == Calls(sess, phase)[g][at[g] + 1]
                  v == CheckC(e, sess, phase, g, at[g] + 1, state)
              IN /\ IF v = Yes THEN TRUE
                    ELSE /\ Explain
                         /\ PrintT("NOT " \o ToString(<<sess, phase, at, g, v>>))
                         /\ FALSE
                 /\ state' = AfterC(e, sess, phase, g, at[g] + 1, state)
           /\ at' = [at EXCEPT ![g] = @ + 1]
           /\ UNCHANGED <<sess, phase>>

\* A call that encodes or decodes takes the types that it meets into use one
\* by one: a registration made meanwhile may be refused because of them and
\* still be before the end of the call, whose result is that of its end.
Refused(s, p) == \E g \in 1..Len(Calls(s, p)) : \E q \in 1..Len(Calls(s, p)[g]) :
                    Calls(s, p)[g][q].op = "regcon" /\ Calls(s, p)[g][q].o # "ok"
Begins(g) == /\ at[g] < Len(Calls(sess, phase)[g])
             /\ LET e == Calls(sess, phase)[g][at[g] + 1]
                IN /\ e.op \in Codec
                   /\ LET r == Use(state.reg, e.t, Inners[sess][phase][g][at[g] + 1], FALSE, e.op \in {"dec", "jdec"})
                      IN /\ r # state.reg
                         /\ Refused(sess, phase)
                         /\ state' = [state EXCEPT !.reg = r]
             /\ UNCHANGED <<sess, phase, at>>

Join == /\ Over
        /\ phase < Len(Trace[sess])
        /\ phase' = phase + 1
        /\ at' = Begin(sess, phase + 1)
        /\ UNCHANGED <<sess, state>>

Done == /\ Over
        /\ phase = Len(Trace[sess])
        /\ PrintT("DONE " \o ToString(sess))
        /\ at' = <<>>
        /\ UNCHANGED <<sess, phase, state>>

Next == (\E g \in 1..Len(at) : Call(g) \/ Begins(g)) \/ Join \/ Done
=============================================================================
