------------------------------ MODULE Pooling ------------------------------
(* Separable correlation, Gaussian kernels, output sizes, coverage counts.    *)
EXTENDS Padding, Analysis

OutLen(n, k, s, dl) ==   \* complete windows that fit
  LET span == dl * (k - 1) + 1 IN IF span > n THEN 0 ELSE (n - span) \div s + 1
Conv1(f, ker, s, dl) ==
  LET m == OutLen(Len(f), Len(ker), s, dl)
  IN [i \in 1..m |-> RDot([j \in 1..Len(ker) |-> f[(i - 1) * s + (j - 1) * dl + 1]], ker)]
ConvAxis(x, a, ker, s, dl) ==
  LET F(f) == Conv1(f, ker, s, dl)
  IN MapFibres(x, a, OutLen(Dim(x, a), Len(ker), s, dl), F)

(* Number of original elements in the window of each output.                  *)
Coverage(n, pb, pa, k, s) ==
  LET m == OutLen(n + pb + pa, k, s, 1)
      Lo(i) == Max2((i - 1) * s, pb)
      Hi(i) == Min2((i - 1) * s + k, pb + n)
  IN [i \in 1..m |-> Max2(Hi(i) - Lo(i), 0)]
RECURSIVE OuterAll(_)
OuterAll(cs) ==   \* product tensor of several count sequences
  IF cs = <<>> THEN [s |-> <<>>, d |-> <<1>>]
  ELSE LET h == Head(cs) r == OuterAll(Tail(cs)) n == Len(r.d)
       IN [s |-> <<Len(h)>> \o r.s,
           d |-> [q \in 1..(Len(h) * n) |-> h[((q - 1) \div n) + 1] * r.d[((q - 1) % n) + 1]]]

-----------------------------------------------------------------------------
(* Gaussian derivative kernels.  Polynomials are coefficient sequences, lowest*)
(* degree first.                                                              *)
PolyDeriv(q) == [i \in 1..Len(q) |-> IF i < Len(q) THEN RMul(i, q[i + 1]) ELSE 0]
PolyTimesX(q) == [i \in 1..Len(q) |-> IF i = 1 THEN 0 ELSE q[i - 1]]
RECURSIVE DerivPoly(_, _, _)
DerivPoly(q, s2, k) ==     \* f = q phi, phi' = -x/s2 phi
  IF k = 0 THEN q
  ELSE LET d == PolyDeriv(q) xq == PolyTimesX(q)
       IN DerivPoly([i \in 1..Len(q) |-> RSub(d[i], RDiv(xq[i], s2))], s2, k - 1)
RECURSIVE Horner(_, _)
Horner(q, x) == IF q = <<>> THEN 0 ELSE RAdd(Head(q), RMul(x, Horner(Tail(q), x)))
GaussianKernel(size, sigma, order) ==
  LET r == size \div 2
      s2 == RMul(sigma, sigma)
      raw == TLCEval([i \in 1..(2 * r + 1) |-> RExp(RR(RDiv(-(i - 1 - r) * (i - 1 - r), RMul(2, s2))))])
      tot == RSum(raw)
      phi == [i \in 1..(2 * r + 1) |-> RR(RDiv(raw[i], tot))]
      q == DerivPoly([i \in 1..(order + 1) |-> IF i = 1 THEN 1 ELSE 0], s2, order)
      \* correlation orientation: entry i holds the value at -(i-1-r)
      full == TLCEval([i \in 1..(2 * r + 1) |-> RR(RMul(Horner(q, -(i - 1 - r)), phi[i]))])
      cut == SubSeq(full, 1, size)
  IN IF size = 2 * r + 1 THEN full
     ELSE IF order = 0 THEN LET c == RSum(cut) IN TLCEval([i \in 1..size |-> RR(RDiv(cut[i], c))])
     ELSE cut

-----------------------------------------------------------------------------
(* Pooling layers: kernel (parameter list of sequences), stride (parameter    *)
(* list of integers), pad = <<>> or <<padder id>>.                            *)
KernelSizes(p) == [n |-> p.kernel.n, it |-> [i \in 1..Len(p.kernel.it) |-> Len(p.kernel.it[i])]]
StrideOf(st, ks) ==     \* None means the kernel size; combined index
  LET n == AggN(<<st.n, ks.n>>) m == IF n = 0 THEN 1 ELSE n
  IN IF n = -1 THEN [st |-> "err"]
     ELSE [st |-> "ok", p |-> [n |-> n, it |-> [i \in 1..m |->
              LET s == PGet(st, i - 1) IN IF s = <<>> THEN PGet(ks, i - 1) ELSE s[1]]]]
Opts(p) == [n |-> p.n, it |-> [i \in 1..Len(p.it) |-> <<p.it[i]>>]]
PoolN(p) == AggN(<<p.kernel.n, p.stride.n>>)
Sizes(x, axs) == [n |-> Len(axs), it |-> [i \in 1..Len(axs) |-> <<Dim(x, axs[i])>>]]
(* heap: id -> object.  Result: [st, t, h].                                   *)
RECURSIVE ConvList(_, _, _, _)
ConvList(p, x, axs, i) ==
  IF i > Len(axs) THEN [st |-> "ok", t |-> x]
  ELSE LET k == PGet(p.kernel, i - 1) s == PGet(p.stride, i - 1)
       IN IF k = <<>> THEN ConvList(p, x, axs, i + 1)
          ELSE IF Len(k) > Dim(x, axs[i]) THEN [st |-> "err", t |-> x]
          ELSE ConvList(p, ConvAxis(x, axs[i], k, s, 1), axs, i + 1)
PoolPad(h, p, x, axs) ==
  IF p.pad = <<>> THEN [st |-> "ok", t |-> x, h |-> h]
  ELSE LET id == p.pad[1]
           rt == Retarget(h[id], KernelSizes(p), Opts(p.stride), Sizes(x, axs))
           h2 == [h EXCEPT ![id] = rt.c]
       IN IF rt.st # "ok" THEN [st |-> rt.st, t |-> x, h |-> h2]
          ELSE LET r == PadForward(rt.c, x, axs) IN [st |-> r.st, t |-> r.t, h |-> h2]
PoolForward(h, p, x, axs) ==
  IF PoolN(p) # 0 /\ PoolN(p) # Len(axs) THEN [st |-> "err", t |-> x, h |-> h]
  ELSE LET r == PoolPad(h, p, x, axs)
       IN IF r.st # "ok" THEN r
          ELSE LET c == ConvList(p, r.t, axs, 1) IN [st |-> c.st, t |-> c.t, h |-> r.h]
(* Average pooling leaving padding out: mean of the original elements only.   *)
RECURSIVE AvgList(_, _, _, _, _)
AvgList(p, c, x, axs, i) ==     \* zero padding one axis, window sum / coverage
  IF i > Len(axs) THEN x
  ELSE LET k == Len(PGet(p.kernel, i - 1)) s == PGet(p.stride, i - 1)
           w == PGet(c.pw, i - 1)
           cov == Coverage(Dim(x, axs[i]), w[1], w[2], k, s)
           F(f) == [j \in 1..Len(cov) |->
                      LET lo == Max2((j - 1) * s - w[1], 0)
                          hi == Min2((j - 1) * s - w[1] + k, Len(f))
                      IN RDiv(RSum(SubSeq(f, lo + 1, hi)), hi - lo)]
       IN AvgList(p, c, MapFibres(x, axs[i], Len(cov), F), axs, i + 1)
ZeroPad(c) ==
  \A i \in 1..Len(c.mode.it) : \/ c.mode.it[i] = "zeros"
                               \/ c.mode.it[i] = "constant" /\ \A j \in 1..Len(c.cv.it) : REq(c.cv.it[j][1], 0) /\ REq(c.cv.it[j][2], 0)
AvgForward(h, p, x, axs) ==
  IF p.cip \/ p.pad = <<>> THEN PoolForward(h, p, x, axs)
  ELSE IF PoolN(p) # 0 /\ PoolN(p) # Len(axs) THEN [st |-> "err", t |-> x, h |-> h]
  ELSE LET r == PoolPad(h, p, x, axs)
       IN IF r.st # "ok" THEN r
          ELSE IF ~Distinct(axs) \/ ~ZeroPad(h[p.pad[1]]) THEN [st |-> "any", t |-> x, h |-> r.h]
          ELSE [st |-> "ok", t |-> AvgList(p, r.h[p.pad[1]], x, axs, 1), h |-> r.h]
PoolCall(h, p, x, axs) ==
  IF p.cls = "AvgPoolNd" THEN AvgForward(h, p, x, axs) ELSE PoolForward(h, p, x, axs)
ToFilter(p) == [p EXCEPT !.stride = [n |-> 0, it |-> <<1>>]]
=============================================================================
