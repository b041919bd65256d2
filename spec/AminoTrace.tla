----------------------------- MODULE AminoTrace -----------------------------
(* Traces recorded from the real code, checked against the specification.   *)
(* A trace is a sequence of sessions and a session a sequence of events.    *)
(* Each session is one behaviour: its state is what the specification says  *)
(* the codec's state is after the events so far.  An event which is not     *)
(* what the specification allows is printed as a mismatch.                  *)
EXTENDS AminoEvents

Trace == ndJsonDeserialize(IOEnv.AMINO_TRACE)

----------------------------------------------------------------------------
VARIABLES sess, pos, state

Init == sess \in 1..Len(Trace) /\ pos = 0 /\ state = <<>>

Next == /\ pos < Len(Trace[sess])
        /\ LET e == Trace[sess][pos + 1]
               v == Check(e, state)
           IN IF v = Yes THEN TRUE
              ELSE PrintT("MISMATCH " \o ToString(sess) \o " " \o ToString(pos + 1) \o " " \o v)
        /\ pos' = pos + 1
        /\ sess' = sess
        /\ state' = After(Trace[sess][pos + 1], state)
=============================================================================
