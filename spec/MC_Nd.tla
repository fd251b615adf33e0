------------------------------- MODULE MC_Nd -------------------------------
(* N-d padding in place.  The result buffer starts with the input as an inner *)
(* block and everything else unset; the axes are then filled one after        *)
(* another in the listed order, each only across the part of the buffer that  *)
(* is already set.  Checked in every state: the set part is exactly the       *)
(* composition of the 1-d paddings done so far, nothing outside it has been   *)
(* touched, the input block is intact; and at the end the buffer is the       *)
(* padding of module Padding, also when each axis is padded on demand.        *)
EXTENDS Padding, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES c,          \* the padder (one item per listed axis)
          x, axs,     \* input tensor, listed axes
          y,          \* buffer
          beg, end,   \* the set part, per axis
          i           \* number of axes done
vars == <<c, x, axs, y, beg, end, i>>

RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
ToSet(q) == {q[j] : j \in 1..Len(q)}
Consts(k) == [n |-> k, it |-> [j \in 1..k |-> <<100 * j, -100 * j>>]]
Lens(k) == [n |-> k, it |-> [j \in 1..k |-> << <<j>>, <<>> >>]]
MkPadder(ws, ms) == [cls |-> "Padder", pw |-> [n |-> Len(ws), it |-> ws], mode |-> [n |-> Len(ms), it |-> ms],
                     cv |-> Consts(Len(ws)), ev |-> Consts(Len(ws)), sl |-> Lens(Len(ws))]
(* Samples in no particular order, some negative.                             *)
Input(s) == [s |-> s, d |-> [q \in 1..ProdSeq(s) |-> ((7 * q * q + 3 * q) % 23) - 9]]
Pos(a) == CHOOSE j \in 1..Len(axs) : axs[j] = a
Listed(a) == \E j \in 1..Len(axs) : axs[j] = a
Before_(a) == IF Listed(a) THEN c.pw.it[Pos(a)][1] ELSE 0
Full(a) == IF Listed(a) THEN NewLen(c.mode.it[Pos(a)], Dim(x, a), c.pw.it[Pos(a)][1], c.pw.it[Pos(a)][2]) ELSE Dim(x, a)

Init == \E s \in ToSet(Cfg.shapes) : \E k \in 1..Len(s) :
        \E aa \in Lists(k, 0..(Len(s) - 1)) : Distinct(aa) /\ k >= Cfg.axes /\
        \E ws \in Lists(k, ToSet(Cfg.widths)) : \E ms \in Lists(k, ToSet(Cfg.modes)) :
          /\ x = Input(s) /\ axs = aa /\ c = MkPadder(ws, ms)
          /\ beg = [a \in 1..Len(s) |-> Before_(a - 1)]
          /\ end = [a \in 1..Len(s) |-> Before_(a - 1) + s[a]]
          /\ LET In(ix) == IF \A a \in 1..Len(s) : ix[a] >= beg[a] /\ ix[a] < end[a]
                           THEN At(x, [a \in 1..Len(s) |-> ix[a] - beg[a]]) ELSE "?"
             IN y = Build([a \in 1..Len(s) |-> Full(a - 1)], In)
          /\ i = 0
n == Rank(x)
(* Fill axis axs[i+1] on the lines through the set part.                      *)
Fill == /\ i < Len(axs)
        /\ LET a == axs[i + 1]
               w == c.pw.it[i + 1]
               m == c.mode.it[i + 1]
               OnLine(ix) == \A b \in 1..n : b = a + 1 \/ (ix[b] >= beg[b] /\ ix[b] < end[b])
               Line(ix) == Extend(m, [j \in 1..Dim(x, a) |-> At(y, [ix EXCEPT ![a + 1] = beg[a + 1] + j - 1])],
                                  w[1], w[2], SidePar(c, i - Len(axs)))
               V(ix) == IF OnLine(ix) THEN Line(ix)[ix[a + 1] + 1] ELSE At(y, ix)
           IN /\ y' = IF w = <<0, 0>> THEN y ELSE Build(y.s, V)
              /\ beg' = [beg EXCEPT ![a + 1] = 0]
              /\ end' = [end EXCEPT ![a + 1] = Dim(y, a)]
        /\ i' = i + 1
        /\ UNCHANGED <<c, x, axs>>
Done == i = Len(axs)
Emit == /\ Done
        /\ PrintT(<<"C", ToJson([s |-> x.s, d |-> x.d, axs |-> axs, pw |-> c.pw.it, mode |-> c.mode.it])>>)
        /\ i' = i + 1
        /\ UNCHANGED <<c, x, axs, y, beg, end>>
Next == Fill \/ Emit

-----------------------------------------------------------------------------
Len_ == [a \in 1..n |-> end[a] - beg[a]]
RECURSIVE PadSome(_, _)
PadSome(t, j) == IF j > Min2(i, Len(axs)) THEN t ELSE PadSome(PadOne(c, t, j - Len(axs) - 1, axs[j]), j + 1)
SetPart == LET e == PadSome(x, 1) b == Block(y, beg, Len_)
           IN b.s = e.s /\ RFirstBad(b.d, e.d, 0, 0) = 0
Untouched == \A q \in 1..Numel(y) :
  LET ix == Unflat(y.s, q - 1)
  IN (\E a \in 1..n : ix[a] < beg[a] \/ ix[a] >= end[a]) <=> REq(y.d[q], "?")
Intact == LET off == BeforeWidths(c, x, axs) IN RFirstBad(Block(y, off, x.s).d, x.d, 0, 0) = 0
Whole == Done => LET r == PadForward(c, x, axs) IN r.st = "ok" /\ r.t.s = y.s /\ RFirstBad(y.d, r.t.d, 0, 0) = 0
RECURSIVE OnDemand(_, _)
OnDemand(t, j) == IF j > Len(axs) THEN t ELSE OnDemand(PadAxis(c, t, j - 1, axs[j]).t, j + 1)
OneByOne == Done => RFirstBad(y.d, OnDemand(x, 1).d, 0, 0) = 0
=============================================================================
