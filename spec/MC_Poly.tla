------------------------------- MODULE MC_Poly -------------------------------
(* Polynomials and outer products.  A machine reads the coefficients from the *)
(* highest degree and multiplies up; at every prefix its accumulator is the   *)
(* sum of coefficient times power, and the specification's value.  The product*)
(* of two polynomials is evaluated by the outer product of the coefficients.  *)
EXTENDS Misc, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES p, x, acc, i
vars == <<p, x, acc, i>>
ToSet(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
Init == /\ p \in UNION {Lists(k, ToSet(Cfg.coef)) : k \in 1..(Cfg.degree + 1)}
        /\ \E j \in 1..Len(Cfg.xs) : x = Cfg.xs[j]
        /\ acc = 0 /\ i = 0
Read == /\ i < Len(p)
        /\ acc' = RAdd(RMul(acc, x), p[i + 1])
        /\ i' = i + 1 /\ UNCHANGED <<p, x>>
Emit == /\ i = Len(p) /\ PrintT(<<"C", ToJson([p |-> p])>>) /\ i' = 99 /\ UNCHANGED <<p, x, acc>>
Next == Read \/ Emit
-----------------------------------------------------------------------------
Horner_ == i \in 1..Len(p) => REq(acc, PolyVal(SubSeq(p, 1, i), x))
Powers == i \in 1..Len(p) => REq(acc, RSum([j \in 1..i |-> RMul(p[j], RPow(x, i - j))]))
(* Product by the anti-diagonals of the outer product.                        *)
V(u) == [s |-> <<Len(u)>>, d |-> u]
Prod_ == i = 99 =>
  LET o == OuterProd(V(p), V(p)) n == Len(p)
      c == [m \in 1..(2 * n - 1) |-> RSum([j \in 1..n |-> IF m - j + 1 \in 1..n THEN At(o, <<j - 1, m - j>>) ELSE 0])]
  IN /\ o.s = <<n, n>>
     /\ REq(PolyVal(c, x), RMul(PolyVal(p, x), PolyVal(p, x)))
Shapes == i = 99 =>
  LET o == OuterProd(V(p), [s |-> <<1, Len(p)>>, d |-> p]) IN o.s = <<Len(p), 1, Len(p)>> /\ Len(o.d) = Len(p) * Len(p)
=============================================================================
