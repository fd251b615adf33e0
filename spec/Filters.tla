------------------------------ MODULE Filters ------------------------------
(* Edge filters, Laplacians, unsharp masking, metrics and losses.  Every      *)
(* operator that runs layers takes the heap and returns [st, t, h].           *)
EXTENDS Pooling

-----------------------------------------------------------------------------
(* Edge filters.  An edge filter refers to two pooling layers, ef (edge) and  *)
(* sf (smoothing), both converted to filters.                                 *)
FaridSmooth == <<"376593171958126/10000000000000000", "249153396177344/1000000000000000",
                 "426374573253687/1000000000000000", "249153396177344/1000000000000000",
                 "376593171958126/10000000000000000">>
FaridEdge == <<"-109603762960254/1000000000000000", "-276690988455557/1000000000000000", 0,
               "276690988455557/1000000000000000", "109603762960254/1000000000000000">>
Normalised(q) == LET s == RSum(q) IN [i \in 1..Len(q) |-> RDiv(q[i], s)]
OneKernel(q) == [n |-> 0, it |-> <<q>>]
MapParams(p, F(_)) == [n |-> p.n, it |-> [i \in 1..Len(p.it) |-> F(p.it[i])]]

Component(h, o, x, ea, sas) ==
  LET axs == SelectSeq(sas, LAMBDA a : a # ea)
      r == PoolCall(h, h[o.ef], x, <<ea>>)
      ker == PGet(h[o.ef].kernel, 0)
  IN IF h[o.ef].pad = <<>> /\ Dim(x, ea) < Len(ker) THEN [st |-> "any", t |-> x, h |-> h]   \* no window fits
     ELSE IF r.st # "ok" THEN r ELSE PoolCall(r.h, r.h[o.sf], r.t, axs)
RECURSIVE Components(_, _, _, _, _)
Components(h, o, x, axs, i) ==      \* [st, ts, h]
  IF i > Len(axs) THEN [st |-> "ok", ts |-> <<>>, h |-> h]
  ELSE LET c == Component(h, o, x, axs[i], axs)
       IN IF c.st # "ok" THEN [st |-> c.st, ts |-> <<>>, h |-> c.h]
          ELSE LET r == Components(c.h, o, x, axs, i + 1)
               IN [st |-> r.st, ts |-> <<c.t>> \o r.ts, h |-> r.h]
SameShapes(ts) == \A i \in 1..Len(ts) : ts[i].s = ts[1].s
PowT(t, p) == LET F(v) == RPow(v, p) IN Map1(t, F)
RootT(t, p) == LET F(v) == IF RLt(v, IF p % 2 = 1 THEN "1/50" ELSE 0) THEN "?"   \* odd roots near 0: unspecified
                            ELSE RR(RRoot(v, p)) IN Map1(t, F)
RECURSIVE SumT(_)
SumT(ts) == IF Len(ts) = 1 THEN ts[1] ELSE TAdd(ts[1], SumT(Tail(ts)))
Magnitude(h, o, x, axs, eps, p) ==
  IF Len(axs) < 2 THEN [st |-> "err", t |-> x, h |-> h]
  ELSE LET r == Components(h, o, x, axs, 1)
       IN IF r.st # "ok" THEN [st |-> r.st, t |-> x, h |-> r.h]
          ELSE IF ~SameShapes(r.ts) THEN [st |-> "any", t |-> x, h |-> r.h]
          ELSE LET s == TShift(eps, SumT([i \in 1..Len(r.ts) |-> IF p = 1 THEN r.ts[i] ELSE PowT(r.ts[i], p)]))
               IN [st |-> "ok", t |-> IF p = 1 THEN s ELSE RootT(s, p), h |-> r.h]

-----------------------------------------------------------------------------
Unsharp(h, o, x, axs, slack) ==
  LET r == PoolCall(h, h[o.blur], x, axs)
  IN IF r.st # "ok" THEN r
     ELSE IF r.t.s # x.s THEN [st |-> "any", t |-> x, h |-> r.h]
     ELSE LET F(v, b) ==
                LET d == RSub(v, b) m == RAbs(d)
                    keep == RAdd(v, RMul(o.amount, d))
                IN IF RLe(o.threshold, 0) THEN keep
                   ELSE IF RLt(m, RSub(o.threshold, slack)) THEN v
                   ELSE IF RLt(m, RAdd(o.threshold, slack)) /\ ~REq(slack, 0) THEN "?"
                   ELSE keep
          IN [st |-> "ok", t |-> Map2(x, r.t, F), h |-> r.h]

-----------------------------------------------------------------------------
(* Metrics.                                                                   *)
SqErr(x, y) == LET F(a, b) == LET d == RSub(a, b) IN RMul(d, d) IN Map2(x, y, F)
ReduceBy(red, t, axs) ==
  CASE red = "none" -> t
    [] red = "mean" -> MeanAxes(t, SetOfAxes(axs))
    [] red = "sum"  -> SumAxes(t, SetOfAxes(axs))
KnownReduction(red) == red \in {"none", "mean", "sum"}
PsnrVal(maxv, eps, m) ==
  LET e == RAdd(m, IF RLt(0, eps) THEN eps ELSE 0)
  IN IF REq(e, 0) THEN "inf" ELSE RR(RSub(RMul(20, RLog10(maxv)), RMul(10, RLog10(e))))

(* SSIM.                                                                      *)
NPix(p, axs) == ProdSeq([i \in 1..Len(axs) |-> Len(PGet(p.kernel, i - 1))])
Blur(h, b, x, axs) == PoolCall(h, h[b], x, axs)
RT(t) == Map1(t, LAMBDA v : RRound(v, 24))
Stats(h, o, x, y, axs) ==
  LET m1 == Blur(h, o.blur, x, axs)
  IN IF m1.st # "ok" THEN [st |-> m1.st, h |-> m1.h]
     ELSE LET m2 == Blur(m1.h, o.blur, y, axs)
              xx == Blur(m1.h, o.blur, TMul(x, x), axs)
              yy == Blur(m1.h, o.blur, TMul(y, y), axs)
              xy == Blur(m1.h, o.blur, TMul(x, y), axs)
              n == NPix(h[o.blur], axs)
              k == IF o.sample THEN RDiv(n, n - 1) ELSE 1
              a == RT(m1.t)  b == RT(m2.t)
          IN [st |-> "ok", h |-> xy.h, m1 |-> a, m2 |-> b,
              v1 |-> RT(TScale(k, TSub(xx.t, TMul(a, a)))),
              v2 |-> RT(TScale(k, TSub(yy.t, TMul(b, b)))),
              c  |-> RT(TScale(k, TSub(xy.t, TMul(a, b))))]
DivT(t, u) == LET F(a, b) == RRound(RDiv(a, b), 22) IN Map2(t, u, F)
CsMap(o, s) ==
  LET C2 == RMul(o.K2, o.K2)
  IN DivT(TShift(C2, TScale(2, s.c)), TShift(C2, TAdd(s.v1, s.v2)))
SsimMap(o, s) ==
  LET C1 == RMul(o.K1, o.K1)
      l == DivT(TShift(C1, TScale(2, TMul(s.m1, s.m2))), TShift(C1, TAdd(TMul(s.m1, s.m1), TMul(s.m2, s.m2))))
  IN RT(TMul(l, CsMap(o, s)))
Crop(h, o, t, axs) ==
  LET p == h[o.blur]
  IN IF ~o.crop \/ p.pad = <<>> THEN t
     ELSE LET pw == h[p.pad[1]].pw
              W(a) == IF \E i \in 1..Len(axs) : axs[i] = a
                      THEN PGet(pw, (CHOOSE i \in 1..Len(axs) : axs[i] = a) - 1) ELSE <<0, 0>>
              len == [i \in 1..Rank(t) |-> Max2(t.s[i] - W(i - 1)[1] - W(i - 1)[2], 0)]
          IN Block(t, [i \in 1..Rank(t) |-> W(i - 1)[1]], len)
EmptyT(t) == \E i \in 1..Len(t.s) : t.s[i] = 0
Ssim(h, o, x, y, cax, rax) ==     \* [st, score, map, h]
  LET s == Stats(h, o, x, y, cax)
  IN IF s.st # "ok" THEN [st |-> s.st, h |-> s.h]
     ELSE IF o.sample /\ NPix(h[o.blur], cax) = 1 THEN [st |-> "any", h |-> s.h]
     ELSE LET m == SsimMap(o, s) c == Crop(s.h, o, m, cax)
          IN IF EmptyT(c) THEN [st |-> "any", h |-> s.h]
             ELSE [st |-> "ok", score |-> MeanAxes(c, SetOfAxes(rax)), map |-> m, h |-> s.h]
(* Mean over axes keeping them as length 1.                                   *)
MeanKeep(t, A) == [s |-> [i \in 1..Rank(t) |-> IF (i - 1) \in A THEN 1 ELSE t.s[i]], d |-> MeanAxes(t, A).d]
RECURSIVE Halve(_, _)
Halve(x, axs) ==    \* non-overlapping 2-blocks averaged
  IF axs = <<>> THEN x ELSE Halve(ConvAxis(x, Head(axs), <<"1/2", "1/2">>, 2, 1), Tail(axs))
Term(o, i, t) ==
  LET w == o.weights[i]
      F(v) == IF o.prod THEN RPowQ(RMax(v, o.eps), w) ELSE RMul(v, w)
  IN Map1(t, F)
RECURSIVE MsRec(_, _, _, _, _, _)
MsRec(h, o, x, y, cax, i) ==    \* combined score of scales i..n, [st, t, h]
  LET s == Stats(h, o, x, y, cax)
      last == i = Len(o.weights)
  IN IF s.st # "ok" THEN [st |-> s.st, t |-> x, h |-> s.h]
     ELSE LET m == IF last THEN SsimMap(o, s) ELSE CsMap(o, s)
              c == Crop(s.h, o, m, cax)
          IN IF EmptyT(c) \/ (o.sample /\ NPix(h[o.blur], cax) = 1)
             THEN [st |-> "any", t |-> x, h |-> s.h]
             ELSE LET v == Term(o, i, MeanKeep(c, SetOfAxes(cax)))
                  IN IF last THEN [st |-> "ok", t |-> v, h |-> s.h]
                     ELSE LET r == MsRec(s.h, o, Halve(x, cax), Halve(y, cax), cax, i + 1)
                          IN IF r.st # "ok" THEN r
                             ELSE [st |-> "ok", h |-> r.h, t |-> IF o.prod THEN TMul(v, r.t) ELSE TAdd(v, r.t)]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
TooSmall(h, o, x, cax) ==
  \E i \in 1..Len(cax) : Dim(x, cax[i]) <= Len(PGet(h[o.blur].kernel, i - 1)) * Pow2(Len(o.weights) - 1)
MsSsim(h, o, x, y, cax, rax) ==
  IF TooSmall(h, o, x, cax) THEN [st |-> "err", h |-> h]
  ELSE LET r == MsRec(h, o, x, y, cax, 1)
       IN IF r.st # "ok" THEN [st |-> r.st, h |-> r.h]
          ELSE [st |-> "ok", score |-> MeanAxes(r.t, SetOfAxes(rax)), h |-> r.h]

-----------------------------------------------------------------------------
(* Edge losses: two edge components (height, width) of an NCHW batch.         *)
MeanAll(t) == RDiv(RSum(t.d), Len(t.d))
EdgeLoss(h, o, kind, x, y) ==
  LET ex == Components(h, h[o.gg], x, <<2, 3>>, 1)
  IN IF ex.st # "ok" THEN [st |-> ex.st, h |-> ex.h]
     ELSE LET ey == Components(ex.h, h[o.gg], y, <<2, 3>>, 1)
              p == CatAll(ex.ts, 1)
              t == CatAll(ey.ts, 1)
              D(a, b) == RAbs(RSub(a, b))
              d == Map2(p, t, D)
              Q(a, b) == IF RLe(RAbs(b), "1/1000000") THEN "?" ELSE RRound(RDiv(a, b), 20)
              w == Map2(d, t, Q)
              A(u) == MeanAxes(Map1(u, RAbs), {2, 3})
          IN CASE kind = "GaussianEdgeLoss" -> [st |-> "ok", h |-> ey.h, v |-> MeanAll(d)]
               [] kind = "WeightedMul" -> [st |-> "ok", h |-> ey.h, v |-> MeanAll(TMul(d, t))]
               [] kind = "WeightedDiv" ->
                    IF \E i \in 1..Len(w.d) : REq(w.d[i], "?") THEN [st |-> "any", h |-> ey.h]
                    ELSE [st |-> "ok", h |-> ey.h, v |-> MeanAll(w)]
               [] kind = "WeightedSum" -> [st |-> "ok", h |-> ey.h, v |-> MeanAll(Map2(A(t), A(p), D))]
=============================================================================
