------------------------------- MODULE Guard -------------------------------
(* Requests outside their domain are refused (C34).  A program owns one heap, *)
(* one PNEBI table, one plane and one line detector, one interval of Dim      *)
(* dimensions and one peak finder; up: it is still running.  An answered      *)
(* request leaves it running, a refused one ends it.                          *)
EXTENDS Integers, Sequences
VARIABLES up,      \* running
          hn,      \* items of the heap
          lut,     \* greatest order of the table, -1: never initialised
          pl, ln,  \* sizes of the detectors
          dom      \* sides of the domain of the peak finder
gvars == <<up, hn, lut, pl, ln, dom>>

In(i, n) == 0 <= i /\ i < n
(* inside the domain, in the present state *)
Valid(o, dim) ==
    CASE o.op \in {"top", "bottom", "nextTop", "nextBottom", "popTop", "popBottom"} -> hn > 0
      [] o.op = "eval" -> lut = -1 \/ In(o.k, lut + 1)
      [] o.op \in {"ht3", "par3"} -> In(o.i[1], pl[1]) /\ In(o.i[2], pl[2]) /\ In(o.i[3], pl[3])
      [] o.op \in {"hs3", "nor3"} -> In(o.i[1], pl[1]) /\ In(o.i[2], pl[2])
      [] o.op = "ht2" -> In(o.i[1], ln[1]) /\ In(o.i[2], ln[2])
      [] o.op = "hs2" -> In(o.i[1], ln[1])
      [] o.op \in {"stacked", "translate"} -> In(o.k, dim)
      [] o.op = "detect" -> \A d \in DOMAIN dom : dom[d] > 0
      [] o.op = "tls" -> o.n = o.m
      [] o.op = "iter" -> ~o.null
      [] o.op = "assert" -> o.a = 1 \/ o.b = 1
      [] OTHER -> TRUE
(* effect of a request: ret tells whether it was answered *)
Request(o, dim, ret) ==
    /\ up /\ ret = Valid(o, dim) /\ up' = ret
    /\ hn' = IF ~ret THEN hn ELSE CASE o.op = "push" -> hn + 1 [] o.op \in {"popTop", "popBottom"} -> hn - 1 [] o.op = "heap" -> 0 [] OTHER -> hn
    /\ lut' = IF o.op = "lut" THEN o.k ELSE lut
    /\ pl' = IF o.op = "plane" THEN o.i ELSE pl
    /\ ln' = IF o.op = "line" THEN o.i ELSE ln
    /\ dom' = IF o.op = "domain" THEN o.i ELSE dom
Start == up = TRUE /\ hn = 0 /\ lut = -1 /\ pl = <<0, 0, 0>> /\ ln = <<0, 0>> /\ dom = <<0, 0>>
=============================================================================
