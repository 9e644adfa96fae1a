------------------------------ MODULE Profiler ------------------------------
(* rofl::Profiler: per label, the samples recorded so far.                    *)
EXTENDS Integers, Sequences, FiniteSets
AbsP(a) == IF a < 0 THEN 0 - a ELSE a
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumP(Tail(s))
Sum1(s) == SumP(s)
Sum2(s) == SumP([i \in DOMAIN s |-> s[i] * s[i]])
MinOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m <= s[i]
MaxOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m >= s[i]
(* numerator of the sample variance over n * (n - 1) *)
VarNum(s) == Len(s) * Sum2(s) - Sum1(s) * Sum1(s)
=============================================================================
