------------------------------ MODULE Library ------------------------------
(* The library as a state machine.  The state is a heap of objects (padders,  *)
(* layers, filters, metrics, specifications); every public call is an action  *)
(* with arguments and a result.  Eval(h, e) gives for a call e in heap h the  *)
(* verdict st ("ok": must return the given result; "err": must raise; "may":  *)
(* may raise, but a returned value must be right; "any": unspecified), the    *)
(* expected tensors ts or tree tr, and the next heap.                         *)
EXTENDS Filters, Bayer, Misc, Nested

NoTree == <<>>
Res(st, ts, tr, h, tol) == [st |-> st, ts |-> ts, tr |-> tr, h |-> h, tol |-> tol]
OkT(t, h, tol)  == Res("ok", <<t>>, NoTree, h, tol)
OkTs(ts, h, tol) == Res("ok", ts, NoTree, h, tol)
OkV(v, h, tol)  == Res("ok", <<[s |-> <<>>, d |-> <<v>>]>>, NoTree, h, tol)
OkTree(t, h)    == Res("ok", <<>>, <<t>>, h, "num")
OkVoid(h)       == Res("ok", <<>>, NoTree, h, "num")
Err(h)          == Res("err", <<>>, NoTree, h, "num")
Unspec(h)          == Res("any", <<>>, NoTree, h, "num")
St(st, t, h, tol) == IF st = "ok" THEN OkT(t, h, tol) ELSE Res(st, <<>>, NoTree, h, tol)

Put(h, id, o) == [i \in DOMAIN h \cup {id} |-> IF i = id THEN o ELSE h[i]]
Has(h, id) == id \in DOMAIN h

CopyOnly(c, L) ==   \* a padder whose results are exact copies of inputs or constants
  \A i \in 1..Len(c.mode.it) : c.mode.it[i] \in CopyModes \cup {"antisymmetric", "zeros", "constant", "empty", "maximum", "minimum", "median", "fn:count", "fn:swap"}
PadTol(c) == IF CopyOnly(c, 0) THEN "exact" ELSE "num"

-----------------------------------------------------------------------------
(* Padder arguments of layers: none, a mode name, or an existing padder.      *)
BindPad(h, id, pa) ==     \* [st, pad, h]
  CASE pa.k = "none" -> [st |-> "ok", pad |-> <<>>, h |-> h]
    [] pa.k = "str"  -> [st |-> "ok", pad |-> <<id \o ".p">>, h |-> Put(h, id \o ".p", DefaultPadder(pa.v))]
    [] pa.k = "ref"  -> IF Has(h, pa.v) THEN [st |-> "ok", pad |-> <<pa.v>>, h |-> h]
                        ELSE [st |-> "any", pad |-> <<>>, h |-> h]
PoolObj(h, id, cls, kernel, stride, pa, cip) ==
  LET ks == [n |-> kernel.n, it |-> [i \in 1..Len(kernel.it) |-> Len(kernel.it[i])]]
      sp == Spec(stride, <<>>)
      bp == BindPad(h, id, pa)
  IN IF sp.st # "ok" THEN Res(sp.st, <<>>, NoTree, h, "num")
     ELSE IF sp.ip > 1 THEN Err(h)
     ELSE LET so == Params(sp, OptNum)
              s  == StrideOf(so, ks)
          IN IF \E i \in 1..Len(so.it) : so.it[i] # <<>> /\ so.it[i][1] < 1 THEN Err(h)
             ELSE IF s.st # "ok" THEN Err(h)
             ELSE IF bp.st # "ok" THEN Unspec(h)
             ELSE OkVoid(Put(bp.h, id, [cls |-> cls, kernel |-> kernel, stride |-> s.p, pad |-> bp.pad, cip |-> cip]))
Uniform(k) == [i \in 1..k |-> RDiv(1, k)]
GaussParams(a) ==    \* [st, p]
  LET K == Spec(a.ks, <<>>) S == Spec(a.sigma, <<>>) O == Spec(a.order, <<>>)
      k == Params(K, Num) s == Params(S, Num) o == Params(O, Num)
      n == AggN(<<k.n, s.n, o.n>>) m == IF n = 0 THEN 1 ELSE n
  IN IF n = -1 THEN [st |-> "err"]
     ELSE IF \E i \in 1..Len(o.it) : o.it[i] < 0 THEN [st |-> "err"]
     ELSE [st |-> "ok", p |-> [n |-> n, it |-> TLCEval([i \in 1..m |-> GaussianKernel(PGet(k, i - 1), PGet(s, i - 1), PGet(o, i - 1))])]]
KernelParams(t) ==
  LET sp == Spec(t, <<-1>>)
  IN IF sp.st # "ok" \/ sp.ip > 1 THEN [st |-> "any"] ELSE [st |-> "ok", p |-> Params(sp, NumSeq)]
FilterPool(h, id, kernel, pa) ==   \* a pooling layer converted to a filter
  LET r == PoolObj(h, id, "SeparablePoolNd", kernel, [k |-> "n", v |-> 0], pa, TRUE)
  IN IF r.st # "ok" THEN r
     ELSE [r EXCEPT !.h = Put(r.h, id, ToFilter(r.h[id]))]
EdgeObj(h, id, edge, smooth, pa) ==
  LET r == FilterPool(h, id \o ".e", edge, pa)
  IN IF r.st # "ok" THEN r
     ELSE LET q == FilterPool(r.h, id \o ".s", smooth, pa)
          IN IF q.st # "ok" THEN q
             ELSE OkVoid(Put(q.h, id, [cls |-> "EdgeFilter", ef |-> id \o ".e", sf |-> id \o ".s"]))
DefPad(pa, d) == IF pa.k = "default" THEN d ELSE pa
Reflected == [k |-> "str", v |-> "reflect"]
MaybeNorm(p, norm) == IF norm THEN MapParams(p, Normalised) ELSE p
GradObj(h, id, a) ==   \* Gaussian gradient
  LET K == Spec(a.ks, <<>>) S == Spec(a.sigma, <<>>)
      k == Params(K, Num) s == Params(S, Num)
      g == GaussParams([ks |-> a.ks, sigma |-> a.sigma, order |-> I(0)])
      ek == IF a.eks # <<>> THEN a.eks[1] ELSE k.it[1]
      es == IF a.esg # <<>> THEN a.esg[1] ELSE s.it[1]
  IN IF g.st # "ok" THEN Err(h)
     ELSE IF (a.eks = <<>> /\ k.n # 0) \/ (a.esg = <<>> /\ s.n # 0) THEN Err(h)
     ELSE IF a.order < 0 THEN Err(h)
     ELSE EdgeObj(h, id, OneKernel(GaussianKernel(ek, es, a.order)), MaybeNorm(g.p, a.norm), DefPad(a.pad, Reflected))
ConvertBlur(h, id, pa) ==    \* to_filter on an existing pooling layer
  LET p == h[id] bp == IF pa.k = "none" THEN [st |-> "ok", pad |-> p.pad, h |-> h] ELSE BindPad(h, id, pa)
  IN IF bp.st # "ok" THEN Unspec(h) ELSE OkVoid(Put(bp.h, id, [ToFilter(p) EXCEPT !.pad = bp.pad]))
BlurOf(h, id, b, pa) ==    \* "gaussian", "mean" or an existing layer: [r, blur]
  LET n == id \o ".b" none == [k |-> "none", v |-> ""] nostride == [k |-> "n", v |-> 0]
  IN IF b.k = "ref" THEN (IF Has(h, b.v) THEN [r |-> ConvertBlur(h, b.v, pa), blur |-> b.v] ELSE [r |-> Unspec(h), blur |-> ""])
     ELSE LET ker == IF b.v = "gaussian" THEN GaussianKernel(11, "3/2", 0) ELSE Uniform(11)
              cls == IF b.v = "gaussian" THEN "GaussianPoolNd" ELSE "AvgPoolNd"
              r == PoolObj(h, n, cls, OneKernel(ker), nostride, none, TRUE)
          IN [r |-> ConvertBlur(r.h, n, pa), blur |-> n]
SsimObj(h, id, a, ms) ==
  LET b == BlurOf(h, id, a.blur, a.pad)
      base == [cls |-> "SSIM", blur |-> b.blur, K1 |-> a.K1, K2 |-> a.K2, sample |-> a.sample, crop |-> a.crop]
  IN IF b.r.st # "ok" THEN b.r
     ELSE OkVoid(Put(b.r.h, id,
            IF ms THEN [cls |-> "MS_SSIM", blur |-> b.blur, K1 |-> a.K1, K2 |-> a.K2, sample |-> a.sample, crop |-> a.crop,
                        weights |-> a.weights, prod |-> a.prod, eps |-> a.eps]
            ELSE base))

-----------------------------------------------------------------------------
(* Construction actions.                                                      *)
NewOps == {"Padder", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd", "EdgeFilter", "Sobel", "Prewitt", "Scharr",
           "Farid", "GaussianGrad", "Laplace", "LoG", "UnsharpMask", "MSE", "PSNR", "SSIM", "MS_SSIM",
           "BayerConv2d", "Loss"}
EvalNew(h, e) ==
  LET a == e.a id == e.id IN
  CASE e.op = "Padder" ->
         LET r == NewPadder(a) IN
         IF r.st = "ok" \/ (r.st = "any" /\ "c" \in DOMAIN r)
         THEN Res(r.st, <<>>, NoTree, Put(h, id, r.c), "num") ELSE Res(r.st, <<>>, NoTree, h, "num")
    [] e.op = "SeparablePoolNd" ->
         LET k == KernelParams(a.kernel) IN
         IF k.st # "ok" THEN Unspec(h) ELSE PoolObj(h, id, e.op, k.p, a.stride, a.pad, TRUE)
    [] e.op = "AvgPoolNd" ->
         LET K == Spec(a.ks, <<>>) IN
         IF K.st # "ok" \/ K.ip > 1 THEN Unspec(h)
         ELSE PoolObj(h, id, e.op, MapParams(Params(K, Num), Uniform), a.stride, a.pad, a.cip)
    [] e.op = "GaussianPoolNd" ->
         LET g == GaussParams(a) IN
         IF g.st # "ok" THEN Err(h) ELSE PoolObj(h, id, e.op, g.p, a.stride, a.pad, TRUE)
    [] e.op = "EdgeFilter" ->
         LET k == KernelParams(a.edge) s == KernelParams(a.smooth) IN
         IF k.st # "ok" \/ s.st # "ok" THEN Unspec(h)
         ELSE IF k.p.n # 0 THEN Err(h)
         ELSE EdgeObj(h, id, k.p, MaybeNorm(s.p, a.norm), a.pad)
    [] e.op = "Sobel"   -> EdgeObj(h, id, OneKernel(<<-1, 0, 1>>), MaybeNorm(OneKernel(<<1, 2, 1>>), a.norm), DefPad(a.pad, Reflected))
    [] e.op = "Prewitt" -> EdgeObj(h, id, OneKernel(<<-1, 0, 1>>), MaybeNorm(OneKernel(<<1, 1, 1>>), a.norm), DefPad(a.pad, Reflected))
    [] e.op = "Scharr"  -> EdgeObj(h, id, OneKernel(<<-1, 0, 1>>), MaybeNorm(OneKernel(<<3, 10, 3>>), a.norm), DefPad(a.pad, Reflected))
    [] e.op = "Farid"   -> EdgeObj(h, id, OneKernel(FaridEdge), MaybeNorm(OneKernel(FaridSmooth), a.norm), DefPad(a.pad, Reflected))
    [] e.op = "GaussianGrad" -> GradObj(h, id, a)
    [] e.op = "Laplace" -> EdgeObj(h, id, OneKernel(<<1, -2, 1>>), OneKernel(<<>>), DefPad(a.pad, Reflected))
    [] e.op = "LoG"     -> GradObj(h, id, [ks |-> a.ks, sigma |-> a.sigma, eks |-> <<>>, esg |-> <<>>, norm |-> TRUE, order |-> 2, pad |-> a.pad])
    [] e.op = "UnsharpMask" ->
         IF ~Has(h, a.blur) THEN Unspec(h)
         ELSE LET r == ConvertBlur(h, a.blur, a.pad) IN
              IF r.st # "ok" THEN r
              ELSE OkVoid(Put(r.h, id, [cls |-> e.op, blur |-> a.blur, amount |-> a.amount, threshold |-> a.threshold]))
    [] e.op = "MSE"  -> OkVoid(Put(h, id, [cls |-> "MSE", red |-> a.red]))
    [] e.op = "PSNR" -> OkVoid(Put(h, id, [cls |-> "PSNR", red |-> a.red, maxv |-> a.maxv, eps |-> a.eps]))
    [] e.op = "SSIM" -> SsimObj(h, id, a, FALSE)
    [] e.op = "MS_SSIM" -> SsimObj(h, id, a, TRUE)
    [] e.op = "BayerConv2d" -> OkVoid(Put(h, id, [cls |-> e.op, k |-> a.k, oc |-> a.oc, ic |-> a.ic, banks |-> a.banks]))
    [] e.op = "Loss" ->
         LET r == GradObj(h, id \o ".g", [ks |-> a.ks, sigma |-> a.sigma, eks |-> <<>>, esg |-> <<>>, norm |-> TRUE, order |-> a.order, pad |-> Reflected]) IN
         IF r.st # "ok" THEN r ELSE OkVoid(Put(r.h, id, [cls |-> a.kind, gg |-> id \o ".g"]))

-----------------------------------------------------------------------------
(* Calls on objects with one image x and an axis argument ax.                 *)
UseOps == {"pad", "pad_axis", "to_same", "pool", "to_filter", "component", "all_components", "horizontal", "vertical",
           "magnitude", "unsharp", "metric", "ssim", "ms_ssim", "bconv", "loss"}
EvalUse(h, e) ==
  LET o == h[e.id] x == e.x n == Rank(x) a == e.a
      bad == ~AxesValid(n, e.ax)
      axs == Axes(n, e.ax)
  IN
  CASE e.op = "pad" ->
         IF bad THEN Err(h) ELSE IF n = 0 THEN Unspec(h)
         ELSE LET r == PadForward(o, x, axs) IN St(r.st, r.t, h, PadTol(o))
    [] e.op = "pad_axis" ->
         IF a.axis < -n \/ a.axis >= n THEN Err(h)
         ELSE LET r == PadAxis(o, x, a.i, NormAxis(n, a.axis)) IN St(r.st, r.t, h, PadTol(o))
    [] e.op = "to_same" ->
         LET K == Params(Spec(a.ks, <<>>), Num)
             S == Params(Spec(a.st, <<>>), OptNum)
             Z == Params(Spec(a.sz, <<>>), OptNum)
             r == Retarget(o, K, S, Z)
         IN IF r.st # "ok" THEN Err(h) ELSE OkVoid(Put(h, e.id, r.c))
    [] e.op = "pool" ->
         IF bad THEN Err(h) ELSE LET r == PoolCall(h, o, x, axs) IN St(r.st, r.t, r.h, "num")
    [] e.op = "to_filter" -> ConvertBlur(h, e.id, a.pad)
    [] e.op = "component" ->
         IF bad \/ a.ea < -n \/ a.ea >= n THEN Err(h)
         ELSE LET r == Component(h, o, x, NormAxis(n, a.ea), axs) IN St(r.st, r.t, r.h, "num")
    [] e.op = "horizontal" -> IF n < 2 THEN Err(h) ELSE LET r == Component(h, o, x, n - 2, <<n - 1>>) IN St(r.st, r.t, r.h, "num")
    [] e.op = "vertical"   -> IF n < 2 THEN Err(h) ELSE LET r == Component(h, o, x, n - 1, <<n - 2>>) IN St(r.st, r.t, r.h, "num")
    [] e.op = "all_components" ->
         IF bad THEN Err(h) ELSE IF Len(axs) < 2 THEN Err(h)
         ELSE LET r == Components(h, o, x, axs, 1)
              IN IF r.st = "ok" THEN OkTs(r.ts, r.h, "num") ELSE Res(r.st, <<>>, NoTree, r.h, "num")
    [] e.op = "magnitude" ->
         IF bad THEN Err(h)
         ELSE LET r == Magnitude(h, o, x, axs, a.eps, a.p) IN St(r.st, r.t, r.h, IF a.p = 1 THEN "num" ELSE "root")
    [] e.op = "unsharp" ->
         IF bad THEN Err(h) ELSE LET r == Unsharp(h, o, x, axs, a.slack) IN St(r.st, r.t, r.h, "num")
    [] e.op = "metric" ->
         IF x.s # e.y.s \/ bad THEN Err(h)
         ELSE IF ~KnownReduction(o.red) THEN Err(h)
         ELSE IF ~Distinct(axs) \/ Numel(x) = 0 THEN Unspec(h)
         ELSE LET m == ReduceBy(o.red, SqErr(x, e.y), axs)
                  P(v) == PsnrVal(o.maxv, o.eps, v)
              IN OkT(IF o.cls = "MSE" THEN m ELSE Map1(m, P), h, "num")
    [] e.op \in {"ssim", "ms_ssim"} ->
         IF x.s # e.y.s \/ bad \/ ~AxesValid(n, e.rx) THEN Err(h)
         ELSE LET rxs == Axes(n, e.rx) IN
         IF ~Distinct(axs) \/ ~Distinct(rxs) \/ axs = <<>> THEN Unspec(h)
         ELSE IF o.cls = "MS_SSIM"
         THEN LET r == MsSsim(h, o, x, e.y, axs, rxs) IN IF r.st = "ok" THEN OkT(r.score, r.h, "num") ELSE Res(r.st, <<>>, NoTree, r.h, "num")
         ELSE LET r == Ssim(h, o, x, e.y, axs, rxs)
              IN IF r.st = "ok" THEN OkTs(IF a.full THEN <<r.score, r.map>> ELSE <<r.score>>, r.h, "num")
                 ELSE Res(r.st, <<>>, NoTree, r.h, "num")
    [] e.op = "bconv" ->
         LET s == x.s IN
         IF a.sa \notin Alignments THEN Err(h)
         ELSE IF ~Image3(s) THEN Unspec(h)
         ELSE IF Ch(s) # o.ic THEN Err(h)
         ELSE IF Hh(s) % 2 # 0 \/ Ww(s) % 2 # 0 \/ o.k \div 2 >= Hh(s) \/ o.k \div 2 >= Ww(s) THEN Unspec(h)
         ELSE LET y == BayerConv(x, a.sa, o.banks, o.k, o.oc) IN OkT(IF a.unshuffle THEN Unshuffle(y) ELSE y, h, "num")
    [] e.op = "loss" ->
         IF Numel(x) = 0 \/ Numel(e.y) = 0 THEN Unspec(h)
         ELSE LET r == EdgeLoss(h, o, o.cls, x, e.y) IN
         IF r.st = "ok" THEN OkV(r.v, r.h, "num") ELSE Res(r.st, <<>>, NoTree, r.h, "num")

-----------------------------------------------------------------------------
(* Functions.                                                                 *)
EvalFun(h, e) ==
  LET a == e.a x == e.x IN
  CASE e.op = "conv1" ->
         LET n == Rank(x) IN
         IF a.dim < -n \/ a.dim >= n THEN Err(h)
         ELSE LET d == NormAxis(n, a.dim) IN
              IF OutLen(Dim(x, d), Len(a.w), a.stride, a.dil) = 0 THEN Err(h)
              ELSE LET r == OkT(ConvAxis(x, d, a.w, a.stride, a.dil), h, "num")
                   IN IF Numel(x) = 0 THEN [r EXCEPT !.st = "may"] ELSE r
    [] e.op = "b14"   -> IF OneOk(x.s) THEN OkT(OneToFour(x), h, "exact") ELSE Err(h)
    [] e.op = "b41"   -> IF FourOk(x.s) THEN OkT(FourToOne(x), h, "exact") ELSE Err(h)
    [] e.op = "rgb1"  -> IF RgbOk(x.s) /\ a.sa \in Alignments THEN OkT(Mosaic(x, a.sa), h, "exact") ELSE Err(h)
    [] e.op = "rgb4"  -> IF RgbOk(x.s) /\ a.sa \in Alignments THEN OkT(OneToFour(Mosaic(x, a.sa)), h, "exact") ELSE Err(h)
    [] e.op = "down1" -> IF OneOk(x.s) /\ a.sa \in Alignments THEN OkT(DownFour(OneToFour(x), a.sa), h, "num") ELSE Err(h)
    [] e.op = "down4" -> IF FourOk(x.s) /\ a.sa \in Alignments THEN OkT(DownFour(x, a.sa), h, "num") ELSE Err(h)
    [] e.op = "demosaic" ->
         IF a.sa \notin Alignments THEN Err(h)
         ELSE IF ~OneOk(x.s) \/ Hh(x.s) < 4 \/ Ww(x.s) < 4 THEN Unspec(h)
         ELSE OkT(Demosaic(x, a.sa, a.clamp), h, "num")
    [] e.op = "merge3" ->
         IF a.sa \notin Alignments \/ Lead(x.s) # Lead(e.y.s) \/ Hh(x.s) # Hh(e.y.s) \/ Ww(x.s) # Ww(e.y.s) THEN Err(h)
         ELSE IF Ch(x.s) # 1 \/ Ch(e.y.s) # 2 \/ Hh(x.s) % 2 # 0 \/ Ww(x.s) % 2 # 0 THEN Unspec(h)
         ELSE OkT(Merge3(x, e.y, a.sa), h, "exact")
    [] e.op = "poly" ->
         LET F(v) == PolyVal(a.p, v) r == OkT(Map1(x, F), h, "num")
         IN IF e.x.dt = "i8" /\ \E i \in 1..Len(a.p) : ~IsInt(a.p[i]) THEN [r EXCEPT !.st = "may"] ELSE r
    [] e.op = "outer" -> OkT(OuterProd(x, e.y), h, "num")
    [] e.op = "spow" ->
         LET b == BShape(x.s, e.y.s)
             F(ix) == LET v == SafePow(BAt(x, ix), BAt(e.y, ix), a.eps) IN IF RIsNum(v) THEN RR(v) ELSE v
         IN IF ~b.ok THEN Err(h) ELSE OkT(Build(b.s, F), h, "rel")
    [] e.op = "same_width" ->
         LET r == SamePair(a.k, a.s, a.n) IN
         IF r.st = "ok" THEN OkTree(U(<<I(r.p[1]), I(r.p[2])>>), h) ELSE Err(h)
    [] e.op = "fmt" ->
         IF a.src = a.dst THEN OkTree(a.pad, h)
         ELSE IF a.src = "numpy" /\ a.dst = "torch" THEN
              OkTree(U(LET f == FlatOf([i \in 1..Len(a.pad.c) |-> Pair(a.pad.c[i])]) IN [i \in 1..Len(f) |-> I(f[i])]), h)
         ELSE IF a.src = "torch" /\ a.dst = "numpy" THEN
              IF a.nd = <<>> THEN Err(h)
              ELSE LET w == NestedOf(NumSeq(a.pad), a.nd[1])
                   IN OkTree(U([i \in 1..Len(w) |-> U(<<I(w[i][1]), I(w[i][2])>>)]), h)
         ELSE Err(h)
    [] e.op = "fmtpad" ->     \* F.pad with the converted widths
         LET w == [n |-> Len(a.pad.c), it |-> [i \in 1..Len(a.pad.c) |-> Pair(a.pad.c[i])]]
             c == [DefaultPadder("zeros") EXCEPT !.pw = w]
             r == PadForward(c, x, [i \in 1..Rank(x) |-> i - 1])
         IN OkT(r.t, h, "exact")
    [] e.op = "conv_1d" ->      \* where no window fits the number may be negative
         LET n == OutLen(a.n, a.k, a.s, a.d) o == e.out.tr
         IN OkTree(IF n = 0 /\ o # NoTree /\ o[1].k = "i" /\ RLe(o[1].v, 0) THEN o[1] ELSE I(n), h)
    [] e.op = "conv_nd" ->
         LET P(t) == Params(Spec(t, <<>>), Num)
             N == P(a.n) K == P(a.k) S == P(a.s) D == P(a.d)
             m == AggN(<<N.n, K.n, S.n, D.n>>)
             V(i) == I(OutLen(PGet(N, i), PGet(K, i), PGet(S, i), PGet(D, i)))
         IN IF m = -1 THEN Err(h)
            ELSE IF m = 0 THEN OkTree(V(0), h) ELSE OkTree(U([i \in 1..m |-> V(i - 1)]), h)
    [] e.op = "cov1" ->
         OkTree(U(LET c == Coverage(a.n, a.pb, a.pa, a.k, a.s) IN [i \in 1..Len(c) |-> I(c[i])]), h)
    [] e.op = "covn" ->
         LET N == Params(Spec(a.n, <<>>), Num) W == Params(Spec(a.pw, <<2>>), Pair)
             K == Params(Spec(a.k, <<>>), Num) S == Params(Spec(a.s, <<>>), Num)
             m == AggN(<<N.n, W.n, K.n, S.n>>)
         IN IF m = -1 THEN Err(h)
            ELSE OkT(OuterAll([i \in 1..(IF m = 0 THEN 1 ELSE m) |->
                   Coverage(PGet(N, i - 1), PGet(W, i - 1)[1], PGet(W, i - 1)[2], PGet(K, i - 1), PGet(S, i - 1))]), h, "exact")
    [] e.op = "gk" ->
         IF a.order < 0 THEN Err(h)
         ELSE OkTree(U(LET g == GaussianKernel(a.ks, a.sigma, a.order) IN [i \in 1..Len(g) |-> I(g[i])]), h)
    [] e.op = "describe" ->
         LET D == DescribeRep(x.d, a.rep) P(k, v) == U(<<[k |-> "t", v |-> k], I(v)>>)
         IN OkTree(U(<<P("25%", D.q25), P("50%", D.q50), P("75%", D.q75), P("max", D.max), P("mean", D.mean), P("min", D.min), P("std", D.std)>>), h)
    [] e.op = "ppd" -> OkTree(I(Ppd(a.diag, a.hp, a.wp, a.dist)), h)
    [] e.op = "axes" ->
         IF ~AxesValid(Rank(x), e.ax) THEN Err(h)
         ELSE LET q == Axes(Rank(x), e.ax) IN OkTree(U([i \in 1..Len(q) |-> I(q[i])]), h)
    \* nested data
    [] e.op = "shape" ->
         LET s == Shape(a.t, a.strict)
         IN OkTree(U(<<IF a.strict THEN a.t ELSE Lift(a.t), U([i \in 1..Len(s) |-> I(s[i])])>>), h)
    [] e.op = "expand" ->
         LET r == Expand(a.t, a.new) s == Shape(r.t, TRUE)
         IN IF r.st = "ok" THEN OkTree(U(<<r.t, U([i \in 1..Len(s) |-> I(s[i])])>>), h) ELSE Res(r.st, <<>>, NoTree, h, "num")
    [] e.op = "rmap" -> IF a.depth < 0 THEN Err(h) ELSE OkTree(TreeMap(a.t, a.depth, a.fn), h)

-----------------------------------------------------------------------------
(* Specification objects.  spec.new / map / apply answer with                 *)
(* (length, is one item, index shape, item shape).                            *)
Ints(s) == U([i \in 1..Len(s) |-> I(s[i])])
Facts(sp) == U(<<I(SpecLen(sp)), I(IF sp.ip = 0 THEN 1 ELSE 0), Ints(IndexShape(sp)), Ints(ItemShape(sp))>>)
MkSpec(h, id, t, ip) == LET sp == [st |-> "ok", t |-> t, ip |-> ip] IN Res("ok", <<>>, <<Facts(sp)>>, Put(h, id, sp), "num")
SpecOps == {"spec.new", "spec.copy", "spec.same", "spec.get", "spec.iter", "spec.map", "spec.starmap", "spec.apply", "spec.zip", "spec.agg"}
EvalSpec(h, e) ==
  LET a == e.a IN
  CASE e.op = "spec.new" ->
         LET sp == IF "index" \in DOMAIN a THEN SpecAt(a.t, a.index) ELSE Spec(a.t, a.item) IN
         IF sp.st = "ok" THEN MkSpec(h, e.id, sp.t, sp.ip) ELSE Res(sp.st, <<>>, NoTree, h, "num")
    [] e.op = "spec.copy" -> LET sp == h[a.src] IN MkSpec(h, e.id, sp.t, sp.ip)
    [] e.op = "spec.same" ->     \* data already of the item shape come back as the same object
         LET sp == Spec(a.t, a.item)
         IN IF sp.st = "ok" /\ TreeEq(sp.t, a.t) THEN OkTree(I(1), h) ELSE Unspec(h)
    [] e.op = "spec.get" ->
         LET g == Get(h[e.id], a.path) IN IF g.st = "ok" THEN OkTree(g.t, h) ELSE Err(h)
    [] e.op = "spec.iter" ->
         LET sp == h[e.id] IN OkTree(IF sp.ip = 0 THEN U(<<sp.t>>) ELSE U(sp.t.c), h)
    [] e.op = "spec.map" -> LET sp == h[a.src] IN MkSpec(h, e.id, TreeMap(sp.t, sp.ip, a.fn), sp.ip)
    [] e.op = "spec.starmap" -> LET sp == h[a.src] IN MkSpec(h, e.id, TreeStarMap(sp.t, sp.ip, a.fn), sp.ip)
    [] e.op \in {"spec.apply", "spec.zip"} ->
         LET sps == [i \in 1..Len(a.ids) |-> h[a.ids[i]]] ag == AggShape(sps)
         IN IF ag = <<>> THEN Err(h)
            ELSE IF \E i \in 1..Len(ag[1]) : ag[1][i] = -1 THEN Unspec(h)     \* ragged index levels
            ELSE MkSpec(h, e.id, ApplyAt(IF e.op = "spec.zip" THEN "tup" ELSE a.fn, sps, ag[1], <<>>), Len(ag[1]))
    [] e.op = "spec.agg" ->
         LET sps == [i \in 1..Len(a.ids) |-> h[a.ids[i]]] ag == AggShape(sps)
         IN IF ag = <<>> \/ ("allowed" \in DOMAIN a /\ \E i \in 1..Len(sps) : \A j \in 1..Len(a.allowed) : a.allowed[j] # sps[i].ip) THEN Err(h)
            ELSE OkTree(U(<<Ints(ag[1]), I(IF ag[1] = <<>> THEN 0 ELSE ag[1][1])>>), h)
SpecRefs(e) == IF e.op \in {"spec.get", "spec.iter"} THEN {e.id}
               ELSE IF e.op \in {"spec.map", "spec.starmap", "spec.copy"} THEN {e.a.src}
               ELSE IF e.op \in {"spec.apply", "spec.zip", "spec.agg"} THEN {e.a.ids[i] : i \in 1..Len(e.a.ids)} ELSE {}

-----------------------------------------------------------------------------
RandomOps == {"crop", "gauss", "poisson"}
Eval(h, e) ==
  IF e.op \in NewOps THEN EvalNew(h, e)
  ELSE IF e.op \in UseOps THEN (IF Has(h, e.id) THEN EvalUse(h, e) ELSE Unspec(h))
  ELSE IF e.op \in SpecOps THEN (IF \A i \in SpecRefs(e) : Has(h, i) THEN EvalSpec(h, e) ELSE Unspec(h))
  ELSE IF e.op \in RandomOps THEN Unspec(h)
  ELSE EvalFun(h, e)

(* Gradient of <ct, result> with respect to x (or y): central difference,     *)
(* exact for affine and quadratic operations, to about 1e-13 for the others.  *)
(* Where the one-sided slopes differ (a kink or a jump) it is "?".            *)
PowSlope(x, p, eps) ==     \* derivative of the safe power; "?" where unspecified
  IF IsInt(p) THEN
     IF REq(p, 0) THEN 0
     ELSE IF REq(x, 0) THEN (IF RLt(p, 1) THEN "?" ELSE IF REq(p, 1) THEN 1 ELSE 0)
     ELSE RMul(p, RPow(x, RSub(p, 1)))
  ELSE IF REq(x, 0) THEN (IF REq(eps, 0) THEN "?" ELSE RMul(p, RPowQ(eps, RSub(p, 1))))
  ELSE RMul(p, RPowQ(RAbs(x), RSub(p, 1)))
PowGrad(e) ==
  LET b == BShape(e.x.s, e.y.s).s
      N == ProdSeq(b)
      m == Rank(e.x) n == Len(b)
      Src(q) == LET ix == Unflat(b, q - 1) IN Flat(e.x.s, [i \in 1..m |-> IF e.x.s[i] = 1 THEN 0 ELSE ix[n - m + i]]) + 1
      Slope(q) == PowSlope(e.x.d[Src(q)], BAt(e.y, Unflat(b, q - 1)), e.a.eps)
      At_(j) == LET Q == SelectSeq([q \in 1..N |-> q], LAMBDA q : Src(q) = j)
                    v == [i \in 1..Len(Q) |-> Slope(Q[i])]
                IN IF \E i \in 1..Len(v) : ~RIsNum(v[i]) THEN "?"
                   ELSE RDot([i \in 1..Len(Q) |-> e.ct[1].d[Q[i]]], v)
  IN [j \in 1..Len(e.x.d) |-> At_(j)]
Wrt(e) == IF "wrt" \in DOMAIN e.a THEN e.a.wrt ELSE "x"
Step == "1/1073741824"
NVars(h, e) == CASE Wrt(e) = "x" -> Len(e.x.d) [] Wrt(e) = "y" -> Len(e.y.d)
                 [] OTHER -> h[e.id].oc * Len(h[e.id].banks[Wrt(e)].w[1])     \* the bank of a site
Nudged(h, e, j, v) ==      \* the result with variable j moved by v
  LET w == Wrt(e) IN
  CASE w = "x" -> Eval(h, [e EXCEPT !.x.d[j] = RAdd(@, v)])
    [] w = "y" -> Eval(h, [e EXCEPT !.y.d[j] = RAdd(@, v)])
    [] OTHER -> LET m == Len(h[e.id].banks[w].w[1]) q == (j - 1) \div m
                IN Eval([h EXCEPT ![e.id].banks[w].w[q + 1][j - q * m] = RAdd(@, v)], e)
GradOf(h, e) ==
  IF e.op = "spow" THEN PowGrad(e) ELSE
  LET F(r) == RDot(e.ct[1].d, r.ts[1].d)
      f == TLCEval(F(Eval(h, e)))
      At_(j) == LET u == TLCEval(F(Nudged(h, e, j, Step)))
                    d == TLCEval(F(Nudged(h, e, j, RNeg(Step))))
                    g == RDiv(RMul("1/2", RSub(u, d)), Step)
                    bend == RDiv(RSub(RAdd(u, d), RMul(2, f)), Step)
                IN IF RLt(RMul("1/1000", RAdd(1, RAbs(g))), RAbs(bend)) THEN "?" ELSE g
  IN [j \in 1..NVars(h, e) |-> At_(j)]

-----------------------------------------------------------------------------
(* Judging an observed result.  The answer is the sequence of broken clauses. *)
Eps(dt) == CASE dt = "f8" -> "1/1000000000" [] dt = "f4" -> "1/20000" [] dt = "f2" -> "1/40" [] dt = "b2" -> "1/5" [] OTHER -> 0
TolAt(tol, dt, exp, x) ==
  IF tol = "exact" \/ dt \notin {"f8", "f4", "f2", "b2"} THEN 0
  ELSE IF tol = "root" THEN RMul(IF dt = "f8" THEN "1/100000" ELSE "1/100", RAdd(1, RMaxAbs(x)))
  ELSE RMul(Eps(dt), RAdd(1, RAdd(RMaxAbs(exp), IF tol = "rel" THEN 0 ELSE RMaxAbs(x))))
TolRt(tol, dt) == IF tol = "rel" THEN Eps(dt) ELSE 0
RECURSIVE TreeClose(_, _, _)
TreeClose(x, y, tol) ==    \* observed, expected
  IF IsLeaf(x) \/ IsLeaf(y)
  THEN /\ IsLeaf(x) /\ IsLeaf(y) /\ x.k = y.k
       /\ IF x.k = "i" THEN RClose(x.v, y.v, tol, tol) ELSE IF x.k = "t" THEN x.v = y.v ELSE TRUE
  ELSE /\ Len(x.c) = Len(y.c)
       /\ \A i \in 1..Len(x.c) : TreeClose(x.c[i], y.c[i], tol)
JudgeTensor(o, t, tol, e) ==
  IF o.s # t.s THEN <<"shape">>
  ELSE LET b == RFirstBad(o.d, t.d, TolAt(tol, o.dt, t.d, e.x.d), TolRt(tol, o.dt))
       IN IF b = 0 THEN <<>> ELSE <<"value">>
Judge(h, e, r) ==
  LET o == e.out IN
  IF r.st = "any" THEN <<>>
  ELSE IF r.st = "may" /\ ~o.ok /\ o.err \notin {"timeout", "crash"} THEN <<>>
  ELSE IF ~o.ok /\ o.err \in {"timeout", "crash"} THEN <<o.err>>
  ELSE IF r.st = "err" THEN (IF o.ok THEN <<"accepted">> ELSE <<>>)
  ELSE IF ~o.ok THEN <<"raised">>
  ELSE (IF o.mut THEN <<"mutated">> ELSE <<>>)
    \o (IF \E i \in 1..Len(o.ts) : e.dt # "" /\ o.ts[i].dt # e.dt THEN <<"dtype">> ELSE <<>>)
    \o (IF \E i \in 1..Len(o.ts) : o.ts[i].dv # e.dv THEN <<"device">> ELSE <<>>)
    \o (IF r.tr # NoTree THEN (IF o.tr # NoTree /\ TreeClose(o.tr[1], r.tr[1], IF e.x.dt = "f4" THEN "1/20000" ELSE "1/1000000000") THEN <<>> ELSE <<"tree">>) ELSE <<>>)
    \o (IF Len(o.ts) # Len(r.ts) THEN <<"count">>
        ELSE LET RECURSIVE All(_)
                 All(i) == IF i > Len(r.ts) THEN <<>> ELSE JudgeTensor(o.ts[i], r.ts[i], r.tol, e) \o All(i + 1)
             IN All(1))
    \o (IF e.ct = <<>> \/ r.ts = <<>> \/ e.ct[1].s # r.ts[1].s THEN <<>>
        ELSE IF o.gd THEN <<"grad mode">>
        ELSE IF o.g = <<>> THEN <<"no gradient">>
        ELSE LET g == GradOf(h, e) b == RFirstBad(o.g, g, TolAt("num", e.x.dt, g, e.ct[1].d), 0)
             IN IF b = 0 THEN <<>> ELSE <<"gradient">>)

(* The geometric clauses of padding alone (C01): size, offset block, dtype.   *)
JudgeInterior(h, e) ==
  LET o == e.out c == h[e.id] x == e.x axs == Axes(Rank(x), e.ax) IN
  IF ~o.ok \/ Len(o.ts) # 1 THEN <<>>
  ELSE LET off == BeforeWidths(c, x, axs) t == o.ts[1]
       IN IF Len(t.s) # Rank(x) \/ \E i \in 1..Rank(x) : off[i] + x.s[i] > t.s[i] THEN <<>>
          ELSE IF RFirstBad(Block(t, off, x.s).d, x.d, 0, 0) = 0 THEN <<>> ELSE <<"interior">>

-----------------------------------------------------------------------------
(* Random operations: the clauses are predicates on the observed results.     *)
Within(v, m, b) == RLe(RAbs(RSub(v, m)), b)
AllNum(t) == \A i \in 1..Len(t.d) : RIsNum(t.d[i])
SameT(t, u) == t.s = u.s /\ RFirstBad(t.d, u.d, 0, 0) = 0
(* Independent normal draws z of variance s2 at the samples of a tensor of    *)
(* shape sh (none if s2 = 0): moments, and no relation between neighbours     *)
(* along any axis.                                                            *)
NormalFailures(z, s2, sh) ==
  LET N == Len(z)
      sd == RSqrt(RR(s2))
      u == [i \in 1..N |-> RDiv(z[i], sd)]
      u2 == [i \in 1..N |-> RMul(u[i], u[i])]
      Pairs(st) == RDot(SubSeq(u, 1, N - st), SubSeq(u, 1 + st, N))
      lags == {ProdSeq(SubSeq(sh, i + 1, Len(sh))) : i \in {j \in 1..Len(sh) : sh[j] > 1}}
  IN IF REq(s2, 0) THEN <<>>
     ELSE (IF Within(RSum(u), 0, RMul(7, RSqrt(N))) THEN <<>> ELSE <<"mean">>)
       \o (IF N < 200 THEN <<>> ELSE
             (IF Within(RSum(u2), N, RMul(8, RSqrt(2 * N))) THEN <<>> ELSE <<"variance">>)
          \o (IF Within(RDot(u, u2), 0, RMul(10, RSqrt(15 * N))) THEN <<>> ELSE <<"skewness">>)
          \o (IF Within(RDot(u2, u2), 3 * N, RMul(14, RSqrt(96 * N))) THEN <<>> ELSE <<"tails">>)
          \o (IF \A st \in lags : 2 * st > N \/ N - st < 150 \/ Within(Pairs(st), 0, RMul(9, RSqrt(N - st))) THEN <<>> ELSE <<"neighbours related">>))
JudgeRandom(e) ==
  LET o == e.out a == e.a x == e.x n == Rank(x) IN
  IF e.op = "crop" THEN
    LET axs == Axes(n, e.ax)
        sz == Params(Spec(a.size, <<>>), OptNum)
        valid == AxesValid(n, e.ax)
        Want(i) == LET S == {j \in 1..Len(axs) : axs[j] = i - 1} IN
                   IF S = {} THEN x.s[i]
                   ELSE LET q == PGet(sz, (CHOOSE j \in S : TRUE) - 1) IN IF q = <<>> THEN x.s[i] ELSE q[1]
    IN IF ~valid THEN (IF o.ok THEN <<"accepted">> ELSE <<>>)
       ELSE IF sz.n # 0 /\ sz.n < Len(axs) THEN <<>>
       ELSE IF \E i \in 1..n : Want(i) > x.s[i] THEN (IF o.ok THEN <<"accepted">> ELSE <<>>)
       ELSE IF ~o.ok THEN <<"raised">>
       ELSE LET m == Len(o.ts) \div 2     \* draws, then the same draws again
                want == [i \in 1..n |-> Want(i)]
                shapes == \A k \in 1..Len(o.ts) : o.ts[k].s = want
                offs == {FindOffset(x, o.ts[k]) : k \in 1..m}
                poss == ProdSeq([i \in 1..n |-> x.s[i] - want[i] + 1])
            IN (IF o.mut THEN <<"mutated">> ELSE <<>>)
            \o (IF Len(o.ts) # 2 * a.draws THEN <<"count">> ELSE <<>>)
            \o (IF \E k \in 1..Len(o.ts) : o.ts[k].dv # e.dv THEN <<"device">> ELSE <<>>)
            \o (IF ~shapes THEN <<"shape">>
                ELSE (IF \A k \in 1..Len(o.ts) : IsBlock(x, o.ts[k]) THEN <<>> ELSE <<"not a block">>)
                  \o (IF \A k \in 1..m : SameT(o.ts[k], o.ts[m + k]) THEN <<>> ELSE <<"not reproducible">>)
                  \o (IF a.draws < 25 * poss \/ Cardinality(offs) = poss THEN <<>> ELSE <<"position never drawn">>)
                  \o (IF a.draws < 100 \/ <<>> \in offs
                         \/ \A i \in 1..n : LET P == x.s[i] - want[i] + 1 IN      \* every quarter of the positions
                              P < 8 \/ \A c \in 0..3 : \E f \in offs : (4 * f[1][i]) \div P = c
                      THEN <<>> ELSE <<"positions never drawn">>))
  ELSE IF ~o.ok THEN <<"raised">>
  ELSE IF \E k \in 1..Len(o.ts) : o.ts[k].s # x.s THEN <<"shape">>
  ELSE IF \E k \in 1..Len(o.ts) : ~AllNum(o.ts[k]) THEN <<"not finite">>
  ELSE (IF o.mut THEN <<"mutated">> ELSE <<>>)
    \o (IF \E k \in 1..Len(o.ts) : o.ts[k].dt # x.dt THEN <<"dtype">> ELSE <<>>)
    \o (IF \E k \in 1..Len(o.ts) : o.ts[k].dv # e.dv THEN <<"device">> ELSE <<>>)
    \o (IF SameT(o.ts[1], o.ts[2]) THEN <<>> ELSE <<"not reproducible">>)
    \o (IF Len(x.d) < 20 \/ ~SameT(o.ts[1], o.ts[3]) THEN <<>> ELSE <<"generator not advanced">>)
    \o (LET N == Len(x.d)
            tiny == RMul(IF x.dt = "f8" THEN "1/1000000000" ELSE "1/10000", RAdd(1, RAdd(RMaxAbs(x.d), a.sigma)))
            dif(t) == [i \in 1..N |-> RSub(t.d[i], x.d[i])]
            d1 == dif(o.ts[1])
        IN IF e.op = "gauss" THEN     \* y(s) y(s)' next y(2s) y(0)
             LET s2 == RMul(a.sigma, a.sigma) IN
             (IF RFirstBad(dif(o.ts[4]), [i \in 1..N |-> RMul(2, d1[i])], RMul(4, tiny), 0) = 0 THEN <<>> ELSE <<"not linear in sigma">>)
             \o (IF RFirstBad(o.ts[5].d, x.d, tiny, 0) = 0 THEN <<>> ELSE <<"noise at sigma 0">>)
             \o NormalFailures(d1, s2, x.s)
             \o (IF N < 200 \/ REq(s2, 0) \/ Within(RDot(d1, dif(o.ts[3])), 0, RMul(9, RMul(s2, RSqrt(N)))) THEN <<>> ELSE <<"draws related">>)
           ELSE                       \* poisson: y(k,s) y(k,s)' next y(k,0) y(k,2s)
             LET k == a.k  s2 == RMul(a.sigma, a.sigma)
                 z == [i \in 1..N |-> RSub(o.ts[1].d[i], o.ts[4].d[i])]
                 z2 == [i \in 1..N |-> RSub(o.ts[5].d[i], o.ts[4].d[i])]
                 cnt == [i \in 1..N |-> RDiv(o.ts[4].d[i], k)]
                 lam == [i \in 1..N |-> RDiv(x.d[i], k)]
                 near(c) == RClose(c, RFloor(RAdd(c, "1/2")), RDiv(tiny, k), 0)
                 dc == [i \in 1..N |-> RSub(cnt[i], lam[i])]
                 vl == RSum(lam)
                 vt == RAdd(RMul(RMul(k, k), vl), RMul(N, s2))
                 m4c == RSum([i \in 1..N |-> RAdd(lam[i], RMul(2, RMul(lam[i], lam[i])))])
                 m4 == RSum([i \in 1..N |-> LET v == RAdd(RMul(k, x.d[i]), s2) IN RAdd(RMul(2, RMul(v, v)), RMul(RPow(k, 4), lam[i]))])
             IN (IF \A i \in 1..N : near(cnt[i]) /\ RLe(RNeg("1/1000"), cnt[i]) THEN <<>> ELSE <<"not a count">>)
             \o (IF RFirstBad(z2, [i \in 1..N |-> RMul(2, z[i])], RMul(RMul(8, RAdd(1, k)), tiny), 0) = 0 THEN <<>> ELSE <<"not linear in sigma">>)
             \o NormalFailures(z, s2, x.s)
             \o (IF Within(RSum(dc), 0, RMul(8, RSqrt(RR(RAdd(vl, 1))))) THEN <<>> ELSE <<"count mean">>)
             \o (IF N < 200 \/ Within(RDot(dc, dc), vl, RMul(12, RSqrt(RR(m4c)))) THEN <<>> ELSE <<"count variance">>)
             \o (IF Within(RSum(d1), 0, RMul(8, RSqrt(RR(RAdd(vt, RMul(k, k)))))) THEN <<>> ELSE <<"mean">>)
             \o (IF N < 200 \/ Within(RDot(d1, d1), vt, RMul(12, RSqrt(RR(m4)))) THEN <<>> ELSE <<"variance">>))

Failed(h, e, r) ==
  IF e.out.err \in {"skipped", "unsupported"} THEN <<>>      \* not executed
  ELSE IF e.op \in RandomOps THEN JudgeRandom(e)
  ELSE Judge(h, e, r) \o (IF e.op = "pad" /\ r.st = "ok" THEN JudgeInterior(h, e) ELSE <<>>)
=============================================================================
