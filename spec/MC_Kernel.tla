------------------------------ MODULE MC_Kernel ------------------------------
(* Gaussian kernels.  The polynomial of the k-th derivative is built by the   *)
(* Hermite recurrence, one order at a time; the specification differentiates  *)
(* formally.  Checked for every size, width and order: both give the same     *)
(* polynomial, the smoothing kernel sums to one and decreases from its centre *)
(* by the exact ratios, odd-sized kernels have the parity of their order, and *)
(* even-sized ones are the next odd size without its last entry.              *)
EXTENDS Pooling, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES size, sigma, order,
          k, p, q           \* current order, its polynomial and the previous one
vars == <<size, sigma, order, k, p, q>>
Init == /\ size \in 1..Cfg.size
        /\ \E i \in 1..Len(Cfg.sigma) : sigma = Cfg.sigma[i]
        /\ order \in 0..Cfg.order
        /\ k = 0
        /\ p = [i \in 1..(order + 1) |-> IF i = 1 THEN 1 ELSE 0]
        /\ q = [i \in 1..(order + 1) |-> 0]
s2 == RMul(sigma, sigma)
Rise == /\ k < order
        /\ p' = LET x == PolyTimesX(p) IN [i \in 1..(order + 1) |-> RNeg(RDiv(RAdd(x[i], RMul(k, q[i])), s2))]
        /\ q' = p
        /\ k' = k + 1
        /\ UNCHANGED <<size, sigma, order>>
Emit == /\ k = order
        /\ PrintT(<<"C", ToJson([n |-> size, sigma |-> sigma, order |-> order])>>)
        /\ k' = 99 /\ UNCHANGED <<size, sigma, order, p, q>>
Next == Rise \/ Emit
-----------------------------------------------------------------------------
Unit == [i \in 1..(order + 1) |-> IF i = 1 THEN 1 ELSE 0]
Recurrence == k <= order => RFirstBad(p, DerivPoly(Unit, s2, k), 0, 0) = 0
Tiny == "1/100000000000000000000"
G(n, o) == GaussianKernel(n, sigma, o)
r == size \div 2
Facts == k = 99 =>
  LET g == G(size, order) IN
  /\ Len(g) = size
  /\ order = 0 => /\ RClose(RSum(g), 1, Tiny, 0)
                  /\ \A i \in 1..size : RLt(0, g[i])
                  /\ \A i \in 1..(size - 1) :    \* ratio of neighbours
                       LET x == i - 1 - r IN
                       RClose(g[i + 1], RMul(g[i], RExp(RR(RDiv(-(2 * x + 1), RMul(2, s2))))), Tiny, 0)
  /\ size % 2 = 1 => \A i \in 1..size : RClose(g[i], RMul(IF order % 2 = 0 THEN 1 ELSE -1, g[size + 1 - i]), Tiny, 0)
  /\ (size % 2 = 0 /\ order > 0) => RFirstBad(g, SubSeq(G(size + 1, order), 1, size), 0, 0) = 0
  /\ (size % 2 = 1 /\ order = 2) => REq(g[r + 1], RR(RMul(RDiv(-1, s2), G(size, 0)[r + 1])))
=============================================================================
