----------------------------- MODULE TraceBase -----------------------------
(* Recorded behaviours of the real code.  Each line of the file named by the  *)
(* environment variable TRACE is one history: [cfg |-> ..., ev |-> <<...>>].  *)
(* A trace specification starts in any history (h) at position l = 1 and      *)
(* consumes the recorded events with the actions of the component's           *)
(* specification.  A history that the specification does not allow gets stuck *)
(* before its end, which TLC reports as a deadlock in state (h, l).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
=============================================================================
