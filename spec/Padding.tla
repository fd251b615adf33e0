------------------------------ MODULE Padding ------------------------------
(* Padders: parameters, n-d padding as composition of 1-d extensions, and the *)
(* same-padding rule.                                                         *)
EXTENDS Tensor, Extension, Nested

CeilDiv(n, s) == (n + s - 1) \div s
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Smallest non-negative total width giving ceil(n/s) windows; before gets    *)
(* the odd one.  s and n are options (<<>> = None).                           *)
SamePair(k, s, n) ==
  IF s = <<1>> THEN LET tot == Max2(k - 1, 0) IN [st |-> "ok", p |-> <<tot - tot \div 2, tot \div 2>>]
  ELSE IF n = <<>> THEN [st |-> "err", p |-> <<0, 0>>]
  ELSE LET ss == IF s = <<>> THEN k ELSE s[1]
           tot == IF k = 0 THEN 0 ELSE Max2((CeilDiv(n[1], ss) - 1) * ss + k - n[1], 0)
       IN [st |-> "ok", p |-> <<tot - tot \div 2, tot \div 2>>]

(* A padder: pw, mode, cv, ev, sl are parameter lists (Nested!Params).        *)
KnownMode(m) == m \in AllModes \cup CustomModes
PadderOk(c) == AggN(<<c.pw.n, c.mode.n, c.cv.n, c.ev.n, c.sl.n>>) # -1
DefaultPadder(mode) ==
  [cls |-> "Padder",
   pw |-> [n |-> 0, it |-> <<<<0, 0>>>>], mode |-> [n |-> 0, it |-> <<mode>>],
   cv |-> [n |-> 0, it |-> <<<<0, 0>>>>], ev |-> [n |-> 0, it |-> <<<<0, 0>>>>],
   sl |-> [n |-> 0, it |-> << << <<>>, <<>> >> >>]]
(* From the user's arguments (trees).                                         *)
NewPadder(a) ==
  LET P == Spec(a.pw, <<2>>)  M == Spec(a.mode, <<>>)
      C == Spec(a.cv, <<2>>)  E == Spec(a.ev, <<2>>)  S == Spec(a.sl, <<2>>)
      all == <<P, M, C, E, S>>
  IN IF \E i \in 1..5 : all[i].st = "err" THEN [st |-> "err"]
     ELSE IF \E i \in 1..5 : all[i].st = "any" THEN [st |-> "any"]
     ELSE IF \E i \in 1..5 : all[i].ip > 1 THEN [st |-> "err"]
     ELSE LET c == [cls |-> "Padder", pw |-> Params(P, Pair), mode |-> Params(M, Num),
                    cv |-> Params(C, Pair), ev |-> Params(E, Pair), sl |-> Params(S, OptPair)]
          IN IF \E i \in 1..Len(c.pw.it) : c.pw.it[i][1] < 0 \/ c.pw.it[i][2] < 0 THEN [st |-> "err"]
             ELSE IF ~PadderOk(c) THEN [st |-> "err"]
             ELSE IF \E i \in 1..Len(c.mode.it) : ~KnownMode(c.mode.it[i]) THEN [st |-> "any", c |-> c]
             ELSE [st |-> "ok", c |-> c]

SidePar(c, i) == [cv |-> PGet(c.cv, i), ev |-> PGet(c.ev, i), sl |-> PGet(c.sl, i)]
NewLen(mode, n, b, a) == IF b = 0 /\ a = 0 THEN n ELSE b + Body(mode, n) + a
PadOne(c, x, i, a) ==      \* pad axis a with the i-th parameters
  LET w == PGet(c.pw, i)
      m == PGet(c.mode, i)
      par == SidePar(c, i)
      F(f) == Extend(m, f, w[1], w[2], par)
  IN IF w = <<0, 0>> THEN x
     ELSE MapFibres(x, a, NewLen(m, Dim(x, a), w[1], w[2]), F)

Reach(c, L) ==     \* how many of the listed axes get parameters
  LET n == AggN(<<c.pw.n, c.mode.n, c.cv.n, c.ev.n, c.sl.n>>) IN IF n = 0 THEN L ELSE Min2(L, n)
RECURSIVE PadFrom(_, _, _, _)
PadFrom(c, x, axs, i) ==   \* i = -m .. -1
  IF i = 0 THEN x ELSE PadFrom(c, PadOne(c, x, i, axs[Len(axs) + i + 1]), axs, i + 1)
NeedsPad(c, axs) ==
  {i \in (-Reach(c, Len(axs)))..(-1) : PGet(c.pw, i) # <<0, 0>>}
\* An axis may be listed again and is then extended again; only modes that
\* depend on the whole length or margin leave open what that means.
WidthBound(m) == m \notin StatModes \cup {"empty", "zeros", "constant", "replicate", "circular", "symmetric", "reflect",
                                           "antisymmetric", "odd_reflect", "odd_symmetric", "smooth"}
PadForward(c, x, axs) ==
  IF axs = <<>> THEN [st |-> "ok", t |-> x]
  ELSE IF ~PadderOk(c) THEN [st |-> "any", t |-> x]       \* left behind by a failed re-targeting
  ELSE IF c.pw.it = <<>> \/ \E i \in NeedsPad(c, axs) : Dim(x, axs[Len(axs) + i + 1]) = 0
       THEN [st |-> "any", t |-> x]                     \* no sample to extend
  ELSE IF ~Distinct(axs) /\ \E i \in NeedsPad(c, axs) : WidthBound(PGet(c.mode, i))
       THEN [st |-> "any", t |-> x]
  ELSE IF \E i \in NeedsPad(c, axs) : ~KnownMode(PGet(c.mode, i)) THEN [st |-> "err", t |-> x]
  ELSE [st |-> "ok", t |-> PadFrom(c, x, axs, -Reach(c, Len(axs)))]
(* Offsets of the original block in the result.                               *)
BeforeWidths(c, x, axs) ==
  LET L == Len(axs) m == Reach(c, L)
  IN [a \in 1..Rank(x) |->
        LET js == SelectSeq([j \in 1..m |-> L - m + j], LAMBDA j : axs[j] = a - 1)
        IN RSum([t \in 1..Len(js) |-> PGet(c.pw, js[t] - L - 1)[1]])]

PadAxis(c, x, i, a) ==
  IF c.pw.n # 0 /\ ~InRange(c.pw.n, i) THEN [st |-> "err", t |-> x]
  ELSE IF PGet(c.pw, i) = <<0, 0>> THEN [st |-> "ok", t |-> x]
  ELSE IF Dim(x, a) = 0 \/ \E n \in {c.mode.n, c.cv.n, c.ev.n, c.sl.n} : n # 0 /\ ~InRange(n, i)
       THEN [st |-> "any", t |-> x]
  ELSE IF ~KnownMode(PGet(c.mode, i)) THEN [st |-> "err", t |-> x]
  ELSE [st |-> "ok", t |-> PadOne(c, x, i, a)]

(* Re-targeting: kernel sizes, strides, sizes are parameter lists; strides    *)
(* and sizes are options.                                                     *)
Retarget(c, ks, st, sz) ==
  LET n == AggN(<<ks.n, st.n, sz.n>>)
  IN IF n = -1 THEN [st |-> "err", c |-> c]
     ELSE LET m == IF n = 0 THEN 1 ELSE n
              prs == [i \in 1..m |-> SamePair(PGet(ks, i - 1), PGet(st, i - 1), PGet(sz, i - 1))]
          IN IF \E i \in 1..m : prs[i].st = "err" THEN [st |-> "err", c |-> c]
             ELSE LET c2 == [c EXCEPT !.pw = [n |-> n, it |-> [i \in 1..m |-> prs[i].p]]]
                  IN IF PadderOk(c2) THEN [st |-> "ok", c |-> c2] ELSE [st |-> "err", c |-> c2]
=============================================================================
