----------------------------- MODULE VecArrayMC -----------------------------
EXTENDS VecArray, TLC, Json
CONSTANTS Vals, Dim, MaxOps
VARIABLES reg, hist
vars == <<reg, hist>>
V == [1..Dim -> Vals]
Init == reg \in {<<u, v>> : u \in V, v \in V} /\ hist = <<>>
Ops == {[op |-> o, d |-> d, a |-> a, b |-> b] : o \in {"add", "sub", "mul", "div"}, d \in 1..2, a \in 1..2, b \in 1..2}
       \union {[op |-> o, d |-> d, b |-> b] : o \in {"addeq", "muleq"}, d \in 1..2, b \in 1..2}
       \union {[op |-> "scaleown", d |-> d, i |-> i] : d \in 1..2, i \in 1..Dim}
       \union {[op |-> "scaleeq", d |-> d, s |-> s] : d \in 1..2, s \in Vals}
       \union {[op |-> "scale", d |-> d, a |-> a, s |-> s] : d \in 1..2, a \in 1..2, s \in Vals}
Legal(r, e) == e.op = "div" => \A i \in 1..Dim : r[e.b][i] # 0
Next == /\ Len(hist) < MaxOps
        /\ \E e \in Ops : /\ Legal(reg, e)
                          /\ reg' = [reg EXCEPT ![e.d] = Value(reg, e, 1)]
                          /\ hist' = Append(hist, [e |-> e, reg |-> reg])
                          /\ (Len(hist') = MaxOps => PrintT("@@" \o ToJson([start |-> hist'[1].reg, ops |-> [i \in 1..MaxOps |-> hist'[i].e]])))
Spec == Init /\ [][Next]_vars
(* ring laws on the registers *)
u == reg[1]
v == reg[2]
LawInv == /\ VAdd(u, v) = VAdd(v, u) /\ VMul(u, v, 1) = VMul(v, u, 1)
          /\ VSub(VAdd(u, v), v) = u
          /\ VMul(u, VAdd(u, v), 1) = VAdd(VMul(u, u, 1), VMul(u, v, 1))
          /\ VScale(VAdd(u, v), 3, 1) = VAdd(VScale(u, 3, 1), VScale(v, 3, 1))
          /\ ((\A i \in 1..Dim : v[i] # 0) => VDiv(VMul(u, v, 1), v, 1) = u)
(* an operation changes its destination only *)
FrameInv == Len(hist) > 0 => LET x == hist[Len(hist)] IN \A k \in 1..2 : k # x.e.d => reg[k] = x.reg[k]
=============================================================================
