------------------------------ MODULE MC_Pool ------------------------------
(* Separable pooling.  The listed axes are convolved one after another, here  *)
(* in every possible order: after any subset of them the tensor must be the   *)
(* direct correlation with the outer product of the kernels of that subset,   *)
(* taken at strided positions, so that all orders end in the same tensor,     *)
(* which is the pooling layer's result, and the stacked edge components are   *)
(* correlations with the edge kernel on their own axis and the smoothing      *)
(* kernel on the others.  Input and kernels are generic: powers of a radix    *)
(* that no coefficient reaches.                                               *)
EXTENDS Filters, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES x, axs, kers, strs,   \* input, listed axes, kernel and stride of each
          t, done               \* current tensor, positions (in axs) already done
vars == <<x, axs, kers, strs, t, done>>
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
ToSet(q) == {q[j] : j \in 1..Len(q)}
Input(s) == [s |-> s, d |-> [q \in 1..ProdSeq(s) |-> RPow(2, q)]]
Ker(j, k) == [q \in 1..k |-> RPow(2, 40 * (4 * j + q))]    \* kernel of the j-th listed axis
Init == \E s \in ToSet(Cfg.shapes) : \E k \in 1..Len(s) :
        \E aa \in Lists(k, 0..(Len(s) - 1)) : Distinct(aa) /\
        \E ks \in Lists(k, 0..Cfg.k) : \E ss \in Lists(k, 1..Cfg.s) :
          /\ \A j \in 1..k : ks[j] <= s[aa[j] + 1]
          /\ x = Input(s) /\ axs = aa /\ strs = ss
          /\ kers = [j \in 1..k |-> Ker(j, ks[j])]
          /\ t = Input(s) /\ done = {}
One(j) == /\ j \notin done
          /\ t' = IF kers[j] = <<>> THEN t ELSE ConvAxis(t, axs[j], kers[j], strs[j], 1)
          /\ done' = done \cup {j}
          /\ UNCHANGED <<x, axs, kers, strs>>
Ended == done = 1..Len(axs)
Emit == /\ Ended
        /\ PrintT(<<"C", ToJson([s |-> x.s, axs |-> axs, ks |-> [j \in 1..Len(axs) |-> Len(kers[j])], st |-> strs])>>)
        /\ done' = {0}
        /\ UNCHANGED <<x, axs, kers, strs, t>>
Next == (done # {0} /\ \E j \in 1..Len(axs) : One(j)) \/ Emit

-----------------------------------------------------------------------------
n == Rank(x)
(* Window shape and strides when the axes in the set J of positions are done. *)
K(J, a) == IF \E j \in J : axs[j] = a /\ kers[j] # <<>> THEN kers[CHOOSE j \in J : axs[j] = a] ELSE <<1>>
S(J, a) == IF \E j \in J : axs[j] = a /\ kers[j] # <<>> THEN strs[CHOOSE j \in J : axs[j] = a] ELSE 1
Direct(J) ==
  LET win == [a \in 1..n |-> Len(K(J, a - 1))]
      V(ix) == RSum(TLCEval([q \in 1..ProdSeq(win) |->
                 LET w == Unflat(win, q - 1)
                     RECURSIVE W(_)
                     W(a) == IF a > n THEN 1 ELSE RMul(K(J, a - 1)[w[a] + 1], W(a + 1))
                 IN RMul(W(1), At(x, [a \in 1..n |-> ix[a] * S(J, a - 1) + w[a]]))]))
  IN Build([a \in 1..n |-> OutLen(x.s[a], Len(K(J, a - 1)), S(J, a - 1), 1)], V)
Same(u, v) == u.s = v.s /\ RFirstBad(u.d, v.d, 0, 0) = 0
Subset == done # {0} => Same(t, Direct(done))
Layer == [cls |-> "SeparablePoolNd", kernel |-> [n |-> Len(axs), it |-> kers], stride |-> [n |-> Len(axs), it |-> strs],
          pad |-> <<>>, cip |-> TRUE]
AsLayer == Ended => LET r == PoolCall([h \in {} |-> 0], Layer, x, axs) IN r.st = "ok" /\ Same(r.t, t)
(* Edge components of a filter with unpadded kernels.                         *)
EdgeHeap == ("e" :> [Layer EXCEPT !.kernel = OneKernel(Ker(1, 2)), !.stride = [n |-> 0, it |-> <<1>>]])
         @@ ("s" :> [Layer EXCEPT !.kernel = OneKernel(Ker(2, 2)), !.stride = [n |-> 0, it |-> <<1>>]])
EdgeOk == (done = {} /\ \A a \in 1..n : x.s[a] >= 2) =>
  LET o == [cls |-> "EdgeFilter", ef |-> "e", sf |-> "s"]
      r == Components(EdgeHeap, o, x, axs, 1)
      Conv(u, a, k) == ConvAxis(u, a, k, 1, 1)
      RECURSIVE Rest(_, _, _)
      Rest(u, i, j) == IF j > Len(axs) THEN u ELSE Rest(Conv(u, axs[j], IF j = i THEN Ker(1, 2) ELSE Ker(2, 2)), i, j + 1)
  IN r.st = "ok" /\ \A i \in 1..Len(axs) : Same(r.ts[i], Rest(x, i, 1))
=============================================================================
