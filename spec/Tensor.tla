------------------------------- MODULE Tensor -------------------------------
(* Dense tensors: [s |-> shape, d |-> elements in row-major order].  Axes are *)
(* numbered from 0, as in the library.  A rank-0 tensor has s = <<>>.         *)
EXTENDS Rat, TLC

RECURSIVE ProdSeq(_)
ProdSeq(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdSeq(Tail(q))

Rank(t)  == Len(t.s)
Numel(t) == ProdSeq(t.s)
Dim(t, a) == t.s[a + 1]
WellFormed(t) == Len(t.d) = ProdSeq(t.s)

Outer(s, a) == ProdSeq(SubSeq(s, 1, a))            \* product of the axes before a
Inner(s, a) == ProdSeq(SubSeq(s, a + 2, Len(s)))   \* product of the axes after a
SetDim(s, a, n) == [s EXCEPT ![a + 1] = n]

(* The 1-d signal along axis a at outer position o and inner position r.      *)
Fibre(t, a, o, r) ==
  LET n == Dim(t, a) m == Inner(t.s, a)
  IN [i \in 1..n |-> t.d[(o * n + (i - 1)) * m + r + 1]]

(* Replace every fibre along axis a by F(fibre), which has length len.        *)
MapFibres(t, a, len, F(_)) ==
  LET n == Dim(t, a)
      no == Outer(t.s, a)
      ni == Inner(t.s, a)
      fib == TLCEval([c \in 1..(no * ni) |->
                 LET o == (c - 1) \div ni   r == (c - 1) % ni
                 IN TLCEval(F(TLCEval([i \in 1..n |-> t.d[(o * n + (i - 1)) * ni + r + 1]])))])
  IN [s |-> SetDim(t.s, a, len),
      d |-> TLCEval([q \in 1..(no * len * ni) |->
               LET r == (q - 1) % ni
                   i == ((q - 1) \div ni) % len
                   o == (q - 1) \div (ni * len)
               IN fib[o * ni + r + 1][i + 1]])]

(* Multi-index of a flat position (both from 0), and back.                    *)
RECURSIVE Unflat(_, _)
Unflat(s, q) == IF s = <<>> THEN <<>>
                ELSE LET m == ProdSeq(Tail(s)) IN <<q \div m>> \o Unflat(Tail(s), q % m)
RECURSIVE Flat(_, _)
Flat(s, ix) == IF s = <<>> THEN 0
               ELSE Head(ix) * ProdSeq(Tail(s)) + Flat(Tail(s), Tail(ix))

At(t, ix) == t.d[Flat(t.s, ix) + 1]

(* Tensor of a given shape from a function of the multi-index.                *)
Build(s, F(_)) == [s |-> s, d |-> TLCEval([q \in 1..ProdSeq(s) |-> F(Unflat(s, q - 1))])]

Map1(t, F(_))        == [s |-> t.s, d |-> TLCEval([i \in 1..Len(t.d) |-> F(t.d[i])])]
Map2(t, u, F(_, _))  == [s |-> t.s, d |-> TLCEval([i \in 1..Len(t.d) |-> F(t.d[i], u.d[i])])]
TAdd(t, u) == Map2(t, u, RAdd)
TSub(t, u) == Map2(t, u, RSub)
TMul(t, u) == Map2(t, u, RMul)
TScale(c, t) == LET F(x) == RMul(c, x) IN Map1(t, F)
TShift(c, t) == LET F(x) == RAdd(c, x) IN Map1(t, F)
Const(s, c) == [s |-> s, d |-> [i \in 1..ProdSeq(s) |-> c]]

(* Sub-block: positions off..off+len-1 on every axis.                         *)
Block(t, off, len) ==
  LET F(ix) == At(t, [a \in 1..Len(ix) |-> ix[a] + off[a]]) IN Build(len, F)

(* Normalised axes: the sequence of non-negative axes an axis argument means. *)
(* An argument is [k |-> "all"], [k |-> "int", a |-> i], [k |-> "seq", a |->  *)
(* <<...>>] or [k |-> "slice", a |-> <<start>>, b |-> <<stop>>, c |-> <<step>>]*)
(* with <<>> for an omitted bound.                                            *)
NormAxis(n, a) == IF a >= 0 THEN a ELSE n + a
AxesValid(n, ax) ==
  CASE ax.k \in {"all", "slice"} -> TRUE
    [] ax.k = "int" -> ax.a >= -n /\ ax.a < n
    [] ax.k = "seq" -> \A i \in 1..Len(ax.a) : ax.a[i] >= -n /\ ax.a[i] < n
ClipTo(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceAxes(n, ax) ==    \* Python slice semantics
  LET st == IF ax.c = <<>> THEN 1 ELSE ax.c[1]
      Norm(x) == IF x < 0 THEN x + n ELSE x
      lo == IF ax.a = <<>> THEN (IF st > 0 THEN 0 ELSE n - 1)
            ELSE IF st > 0 THEN ClipTo(Norm(ax.a[1]), 0, n) ELSE ClipTo(Norm(ax.a[1]), -1, n - 1)
      hi == IF ax.b = <<>> THEN (IF st > 0 THEN n ELSE -1)
            ELSE IF st > 0 THEN ClipTo(Norm(ax.b[1]), 0, n) ELSE ClipTo(Norm(ax.b[1]), -1, n - 1)
      m == IF st > 0 THEN (IF hi > lo THEN (hi - lo + st - 1) \div st ELSE 0)
           ELSE (IF lo > hi THEN (lo - hi + (-st) - 1) \div (-st) ELSE 0)
  IN [i \in 1..m |-> lo + (i - 1) * st]
Axes(n, ax) ==
  CASE ax.k = "all" -> [i \in 1..n |-> i - 1]
    [] ax.k = "int" -> <<NormAxis(n, ax.a)>>
    [] ax.k = "seq" -> [i \in 1..Len(ax.a) |-> NormAxis(n, ax.a[i])]
    [] ax.k = "slice" -> SliceAxes(n, ax)
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
SetOfAxes(axs) == {axs[i] : i \in 1..Len(axs)}

(* Remove the axes in set A by folding every group with F(seq of elements).   *)
Reduce(t, A, F(_)) ==
  LET n == Rank(t)
      keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : (i - 1) \notin A)
      gone == SelectSeq([i \in 1..n |-> i], LAMBDA i : (i - 1) \in A)
      ks == [i \in 1..Len(keep) |-> t.s[keep[i]]]
      gs == [i \in 1..Len(gone) |-> t.s[gone[i]]]
      gn == ProdSeq(gs)
      PosIn(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
      Elem(kx, gx) == At(t, [i \in 1..n |-> IF (i - 1) \in A THEN gx[PosIn(gone, i)] ELSE kx[PosIn(keep, i)]])
      Cell(kx) == F(TLCEval([g \in 1..gn |-> Elem(kx, Unflat(gs, g - 1))]))
  IN Build(ks, Cell)
MeanOf(q) == RDiv(RSum(q), Len(q))
MeanAxes(t, A) == Reduce(t, A, MeanOf)
SumAxes(t, A)  == Reduce(t, A, RSum)

(* Concatenate along axis a.                                                  *)
Cat2(t, u, a) ==
  LET n1 == Dim(t, a)
      F(ix) == IF ix[a + 1] < n1 THEN At(t, ix) ELSE At(u, [ix EXCEPT ![a + 1] = @ - n1])
  IN Build(SetDim(t.s, a, n1 + Dim(u, a)), F)
RECURSIVE CatAll(_, _)
CatAll(ts, a) == IF Len(ts) = 1 THEN ts[1] ELSE Cat2(ts[1], CatAll(Tail(ts), a), a)
=============================================================================
