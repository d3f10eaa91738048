------------------------------- MODULE Trace -------------------------------
(* Common part of all conformance modules: the recorded traces and the     *)
(* position inside one of them.  A conformance module defines              *)
(*    Start(init)   the abstract state in which a trace begins             *)
(*    Good(s, e)    whether event e, with its reported outcome, is what    *)
(*                  the specification allows in state s                    *)
(*    Step(s, e)    the abstract state after e                             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
Events(t) == Traces[t].ev

Range(s) == {s[k] : k \in DOMAIN s}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x

Accepted == bad = FALSE
Pos == <<tid, i, bad>>     \* view: a trace has one run
=============================================================================
