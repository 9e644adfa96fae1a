---------------------------- MODULE VecArrayTrace ----------------------------
(* Recorded histories (C31): after each operation all registers are shown,    *)
(* read with () and with [], and the value returned by the operation.         *)
EXTENDS VecArray, TraceBase
VARIABLES h, l, reg
vars == <<h, l, reg>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ reg = [r \in 1..Hist[h].cfg.regs |-> [i \in 1..Hist[h].cfg.dim |-> 0]]
E == Hist[h].ev[l]
Known == {"add", "sub", "mul", "div", "scale", "addeq", "muleq", "scaleeq", "scaleown", "put", "copy", "new"}
(* floating-point quotients also carry their thousandths, before truncation *)
Fine == E.op = "div" /\ Hist[h].cfg.type \notin {"int", "long"} =>
        \A i \in 1..Len(reg[1]) : AbsI(E.fine[i] * reg[E.b][i] - 1000 * reg[E.a][i]) <= AbsI(reg[E.b][i])
Step == /\ l <= Len(Hist[h].ev)
        /\ E.op \in Known
        /\ Fine = TRUE
        /\ LET next == [reg EXCEPT ![E.d] = Value(reg, E, Hist[h].cfg.k)] IN
             /\ (\A r \in 1..Len(reg) : \A i \in 1..Len(reg[r]) : E.reg[r][i] = next[r][i] /\ E.reg2[r][i] = next[r][i]) = TRUE
             /\ (\A i \in 1..Len(reg[1]) : E.ret[i] = next[E.d][i]) = TRUE
             /\ reg' = next
        /\ l' = l + 1 /\ UNCHANGED h
Done == l > Len(Hist[h].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
