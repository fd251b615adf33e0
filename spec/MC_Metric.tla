------------------------------ MODULE MC_Metric ------------------------------
(* Image metrics on all small images.  The error of two images is reduced over*)
(* the chosen axes one axis at a time, in every order: all orders agree with  *)
(* reducing at once.  SSIM and multi-scale SSIM: identical images score one,  *)
(* the score is symmetric, never above one, a single scale of weight one is   *)
(* SSIM itself, and several scales are the weighted combination of each       *)
(* scale's own terms.                                                         *)
EXTENDS Filters, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES x, y, red, axs,   \* images, reduction, axes to reduce
          t, left           \* what has been reduced so far, axes left
vars == <<x, y, red, axs, t, left>>
ToSet(q) == {q[j] : j \in 1..Len(q)}
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
Images(s) == {[s |-> s, d |-> d] : d \in Lists(ProdSeq(s), ToSet(Cfg.values))}
Gen(s, m) == [s |-> s, d |-> [q \in 1..ProdSeq(s) |-> (m * q * q + 5 * q) % 17]]
Pairs(s) == IF ProdSeq(s) <= 3 THEN {<<a, b>> : a \in Images(s), b \in Images(s)}
            ELSE {<<Gen(s, 3), Gen(s, 7)>>, <<Gen(s, 11), Gen(s, 2)>>}
Init == /\ \E s \in ToSet(Cfg.shapes) : \E p \in Pairs(s) : x = p[1] /\ y = p[2]
        /\ red \in {"mean", "sum"}
        /\ axs \in (SUBSET (0..(Rank(x) - 1))) \ {{}}
        /\ t = SqErr(x, y)
        /\ left = axs
(* Reducing one axis keeps it with length one, so that the others keep their  *)
(* numbers.                                                                   *)
Fold(u, a) == LET r == IF red = "mean" THEN MeanAxes(u, {a}) ELSE SumAxes(u, {a})
              IN [s |-> SetDim(u.s, a, 1), d |-> r.d]
Reduce1 == \E a \in left : t' = Fold(t, a) /\ left' = left \ {a} /\ UNCHANGED <<x, y, red, axs>>
Emit == /\ left = {} /\ red = "mean"
        /\ PrintT(<<"C", ToJson([s |-> x.s, x |-> x.d, y |-> y.d, axs |-> axs])>>)
        /\ left' = {99} /\ UNCHANGED <<x, y, red, axs, t>>
Next == (left # {99} /\ Reduce1) \/ Emit
-----------------------------------------------------------------------------
Order(S) == LET RECURSIVE Q(_)
                Q(R) == IF R = {} THEN <<>> ELSE LET m == CHOOSE v \in R : \A w \in R : v <= w IN <<m>> \o Q(R \ {m})
            IN Q(S)
Reduced == (left = {}) => RFirstBad(t.d, ReduceBy(red, SqErr(x, y), Order(axs)).d, 0, 0) = 0
Symmetric_ == RFirstBad(SqErr(x, y).d, SqErr(y, x).d, 0, 0) = 0
NonNegative == \A i \in 1..Len(t.d) : RLe(0, t.d[i])
ZeroIffEqual == (left = {}) =>
  ((\A i \in 1..Len(t.d) : REq(t.d[i], 0)) <=> x.d = y.d)
(* A smaller error has the higher ratio.                                      *)
Errors == <<"1/4", 1, 2, 9>>
Once == left = axs /\ x.d = y.d
Monotone == Once => \A a, b \in 1..4 : a < b => RLt(PsnrVal(10, 0, Errors[b]), PsnrVal(10, 0, Errors[a]))
SameImagePsnr == Once => /\ REq(PsnrVal(10, 0, 0), "inf")
                         /\ RClose(PsnrVal(10, 0, 1), 20, "1/1000000000", 0)
-----------------------------------------------------------------------------
(* SSIM with a mean blur of 2 (unpadded) on 2-d images.                       *)
Layer == [cls |-> "AvgPoolNd", kernel |-> OneKernel(<<"1/2", "1/2">>), stride |-> [n |-> 0, it |-> <<1>>], pad |-> <<>>, cip |-> TRUE]
H0 == ("b" :> Layer)
Obj == [cls |-> "SSIM", blur |-> "b", K1 |-> "1/16", K2 |-> "1/4", sample |-> FALSE, crop |-> TRUE]
Two == Rank(x) = 2 /\ x.s[1] >= 2 /\ x.s[2] >= 2
Score(a, b) == Ssim(H0, Obj, a, b, <<0, 1>>, <<0, 1>>)
Near(a, b) == RClose(a, b, "1/1000000000000", 0)
SsimLaws == (Two /\ left = axs /\ red = "mean") =>
  /\ Near(Score(x, x).score.d[1], 1)
  /\ Near(Score(x, y).score.d[1], Score(y, x).score.d[1])
  /\ \A i \in 1..Len(Score(x, y).map.d) : RLe(Score(x, y).map.d[i], "1000000001/1000000000")
  /\ RLt(Score(x, y).score.d[1], 1) \/ x.d = y.d
Ms(ws, prod) == [cls |-> "MS_SSIM", blur |-> "b", K1 |-> "1/16", K2 |-> "1/4", sample |-> FALSE, crop |-> TRUE,
                 weights |-> ws, prod |-> prod, eps |-> "1/100000000"]
MsScore(o, a, b) == MsSsim(H0, o, a, b, <<0, 1>>, <<0, 1>>)
Big == Two /\ x.s[1] > 4 /\ x.s[2] > 4
MsLaws == (Big /\ left = axs /\ red = "mean") =>
  /\ Near(MsScore(Ms(<<1>>, FALSE), x, y).score.d[1], Score(x, y).score.d[1])
  /\ Near(MsScore(Ms(<<"1/3", "2/3">>, FALSE), x, x).score.d[1], 1)
  /\ RClose(MsScore(Ms(<<"1/3", "2/3">>, TRUE), x, x).score.d[1], 1, "1/1000000", 0)
  /\ LET s1 == Stats(H0, Obj, x, y, <<0, 1>>)
         c1 == MeanAxes(CsMap(Obj, s1), {0, 1}).d[1]
         s2 == Stats(H0, Obj, Halve(x, <<0, 1>>), Halve(y, <<0, 1>>), <<0, 1>>)
         m2 == MeanAxes(SsimMap(Obj, s2), {0, 1}).d[1]
     IN Near(MsScore(Ms(<<"1/3", "2/3">>, FALSE), x, y).score.d[1], RAdd(RMul("1/3", c1), RMul("2/3", m2)))
=============================================================================
