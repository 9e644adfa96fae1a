------------------------------ MODULE VecArray ------------------------------
(* Algebra of fixed-size vectors (rofl/common/vector_array.h).                *)
(* The state is a register file of vectors; each operation combines entries   *)
(* position by position and leaves its other operands unchanged.              *)
EXTENDS Integers, Sequences
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
(* C++ integer division rounds toward zero *)
Quot(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q
(* Entries are multiples of 1/K (K = 1 for integers); products and quotients *)
(* are used where they are again such multiples.                              *)
VAdd(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
VMul(u, v, K) == [i \in 1..Len(u) |-> Quot(u[i] * v[i], K)]
VDiv(u, v, K) == [i \in 1..Len(u) |-> Quot(K * u[i], v[i])]
VScale(u, s, K) == [i \in 1..Len(u) |-> Quot(s * u[i], K)]
(* reg: the registers; e: an operation with destination d and operands a, b *)
Value(reg, e, K) ==
    CASE e.op = "add" -> VAdd(reg[e.a], reg[e.b])
      [] e.op = "sub" -> VSub(reg[e.a], reg[e.b])
      [] e.op = "mul" -> VMul(reg[e.a], reg[e.b], K)
      [] e.op = "div" -> VDiv(reg[e.a], reg[e.b], K)
      [] e.op = "scale" -> VScale(reg[e.a], e.s, K)
      [] e.op = "addeq" -> VAdd(reg[e.d], reg[e.b])
      [] e.op = "muleq" -> VMul(reg[e.d], reg[e.b], K)
      [] e.op = "scaleeq" -> VScale(reg[e.d], e.s, K)
      [] e.op = "scaleown" -> VScale(reg[e.d], reg[e.d][e.i], K)
      [] e.op = "put" -> [reg[e.d] EXCEPT ![e.i] = e.s]
      [] e.op = "copy" -> reg[e.a]
      [] e.op = "new" -> [i \in 1..Len(reg[e.d]) |-> 0]
=============================================================================
