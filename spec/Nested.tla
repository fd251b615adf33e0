------------------------------- MODULE Nested -------------------------------
(* Nested ("ragged") data and per-axis specifications.                        *)
(*                                                                            *)
(* A node is a scalar  [k |-> "i", v |-> rational]  (a number)                *)
(*                     [k |-> "t", v |-> text]      (a string)                *)
(*                     [k |-> "n", v |-> 0]         (None)                    *)
(* or a container      [k |-> "l" / "u" / "a" / "T", c |-> <<children>>]      *)
(* for list, tuple, numeric ndarray and tensor; the last two also carry their *)
(* shape s (needed when a dimension is 0).                                    *)
EXTENDS Rat, TLC, FiniteSets

I(v)  == [k |-> "i", v |-> v]
U(c)  == [k |-> "u", c |-> c]
IsLeaf(t)  == t.k \in {"i", "t", "n"}
IsDense(t) == t.k \in {"a", "T"}
Kids(t) == t.c

RECURSIVE TreeEq(_, _)
TreeEq(x, y) ==     \* same structure and leaves, whatever the container types
  IF IsLeaf(x) \/ IsLeaf(y)
  THEN /\ IsLeaf(x) /\ IsLeaf(y) /\ x.k = y.k
       /\ IF x.k = "i" THEN REq(x.v, y.v) ELSE IF x.k = "t" THEN x.v = y.v ELSE TRUE
  ELSE /\ Len(x.c) = Len(y.c)
       /\ \A i \in 1..Len(x.c) : TreeEq(x.c[i], y.c[i])

RECURSIVE MaxLen(_)
MaxLen(ss) == IF ss = <<>> THEN 0
              ELSE LET m == MaxLen(Tail(ss)) IN IF Len(Head(ss)) > m THEN Len(Head(ss)) ELSE m
Ones(n) == [i \in 1..n |-> 1]
Merge(ss) ==        \* level-wise common length, or -1; all of equal depth
  [i \in 1..Len(ss[1]) |-> IF \A j \in 1..Len(ss) : ss[j][i] = ss[1][i] THEN ss[1][i] ELSE -1]

(* Shape of nested data.                                                      *)
RECURSIVE Shape(_, _)
Shape(t, strict) ==
  IF IsLeaf(t) THEN <<>>
  ELSE IF IsDense(t) THEN t.s
  ELSE IF t.c = <<>> THEN <<0>>
  ELSE LET ss == [i \in 1..Len(t.c) |-> Shape(t.c[i], strict)]
           dm == MaxLen(ss)
           even == \A i \in 1..Len(ss) : Len(ss[i]) = dm
       IN IF even THEN <<Len(t.c)>> \o Merge(ss)
          ELSE IF strict THEN <<Len(t.c)>>
          ELSE <<Len(t.c)>> \o Merge([i \in 1..Len(ss) |-> Ones(dm - Len(ss[i])) \o ss[i]])

(* The data with every sibling lifted to the deepest level.                   *)
RECURSIVE WrapN(_, _)
WrapN(t, n) == IF n = 0 THEN t ELSE WrapN(U(<<t>>), n - 1)
RECURSIVE Lift(_)
Lift(t) ==
  IF IsLeaf(t) \/ IsDense(t) \/ t.c = <<>> THEN t
  ELSE LET ss == [i \in 1..Len(t.c) |-> Shape(t.c[i], FALSE)]
           dm == MaxLen(ss)
       IN U([i \in 1..Len(t.c) |-> WrapN(Lift(t.c[i]), dm - Len(ss[i]))])

RECURSIVE HasEmpty(_)
HasEmpty(t) == ~IsLeaf(t) /\ (t.c = <<>> \/ \E i \in 1..Len(t.c) : HasEmpty(t.c[i]))

(* Expansion.  Verdict "ok", "err" (a non-singleton or empty level would have *)
(* to take another length) or "any" (unspecified: emptying a level, and       *)
(* ragged siblings one of which is empty).                                    *)
RECURSIVE Fits(_, _)
Fits(t, target) ==      \* target has at most the depth of t
  \/ target = <<>>
  \/ IsLeaf(t)
  \/ /\ (target[1] = -1 \/ target[1] = Len(t.c) \/ Len(t.c) = 1)
     /\ \A i \in 1..Len(t.c) : Fits(t.c[i], Tail(target))
RECURSIVE Grow(_, _)
Grow(t, target) ==
  IF target = <<>> \/ IsLeaf(t) THEN t
  ELSE LET cs == [i \in 1..Len(t.c) |-> Grow(t.c[i], Tail(target))]
       IN U(IF target[1] = -1 \/ target[1] = Len(cs) THEN cs
            ELSE [i \in 1..target[1] |-> cs[1]])
(* A dense array is resized in all its dimensions at once.                    *)
PadTarget(old, new) ==
  IF Len(old) >= Len(new) THEN [i \in 1..(Len(old) - Len(new)) |-> -1] \o new
  ELSE SubSeq(new, Len(new) - Len(old) + 1, Len(new))
Leading(old, new) == IF Len(old) < Len(new) THEN SubSeq(new, 1, Len(new) - Len(old)) ELSE <<>>
RECURSIVE AddLeading(_, _)
AddLeading(t, lead) ==
  IF lead = <<>> THEN t
  ELSE LET n == lead[Len(lead)]
       IN AddLeading(U(IF n = -1 THEN <<t>> ELSE [i \in 1..n |-> t]), SubSeq(lead, 1, Len(lead) - 1))
ZeroClash(old, new) ==
  LET m == IF Len(old) < Len(new) THEN Len(old) ELSE Len(new)
  IN \E i \in 1..m : old[Len(old) - m + i] = 0 /\ new[Len(new) - m + i] > 0
AllFree(new) == \A i \in 1..Len(new) : new[i] = -1
Expand(t, new) ==
  LET old == Shape(t, TRUE)
      tg == PadTarget(old, new)
  IN IF old = new THEN [st |-> "ok", t |-> t]
     ELSE IF ZeroClash(old, new) THEN [st |-> "err", t |-> t]
     ELSE IF (\E i \in 1..Len(new) : new[i] = 0) \/ (HasEmpty(t) /\ ~AllFree(tg))
          THEN [st |-> "any", t |-> t]
     ELSE IF ~Fits(t, tg) THEN [st |-> "err", t |-> t]
     ELSE [st |-> "ok", t |-> AddLeading(Grow(t, tg), Leading(old, new))]

(* Functions used with maps, by name, on a list of argument nodes.            *)
RECURSIVE TreeNeg(_)
TreeNeg(t) == IF IsLeaf(t) THEN (IF t.k = "i" THEN I(RNeg(t.v)) ELSE t)
              ELSE U([i \in 1..Len(t.c) |-> TreeNeg(t.c[i])])
RECURSIVE TreeSum(_)
TreeSum(t) == IF IsLeaf(t) THEN (IF t.k = "i" THEN t.v ELSE 0)
              ELSE RSum([i \in 1..Len(t.c) |-> TreeSum(t.c[i])])
\* A number's kind: leaf.f marks whole numbers written with a decimal point
\* (1.0), leaf.b marks truth values (True, False).
Kind(t) ==
  IF ~IsLeaf(t) THEN "several"
  ELSE IF t.k = "t" THEN "text" ELSE IF t.k = "n" THEN "nothing"
  ELSE IF "b" \in DOMAIN t THEN "truth"
  ELSE IF "f" \in DOMAIN t \/ ~IsInt(t.v) THEN "real" ELSE "whole"
Call(fn, as) ==
  CASE fn = "neg"  -> TreeNeg(as[1])                    \* every number negated
    [] fn = "sum"  -> I(RSum([i \in 1..Len(as) |-> TreeSum(as[i])]))
    [] fn = "tup"  -> U(as)
    [] fn = "dup"  -> U(<<as[1], as[1]>>)
    [] fn = "rev"  -> U([i \in 1..Len(as) |-> as[Len(as) - i + 1]])
    [] fn = "last" -> as[Len(as)]
    [] fn = "none" -> [k |-> "n", v |-> 0]
    [] fn = "count" -> I(Len(as))
    [] fn = "kind" -> [k |-> "t", v |-> Kind(as[1])]      \* what the first item is
    [] fn = "pairs" -> U([i \in 1..Len(as) |-> U(<<as[i], I(i)>>)])
RECURSIVE TreeMap(_, _, _)
TreeMap(t, depth, fn) ==
  IF depth = 0 THEN Call(fn, <<t>>) ELSE U([i \in 1..Len(t.c) |-> TreeMap(t.c[i], depth - 1, fn)])
RECURSIVE TreeStarMap(_, _, _)
TreeStarMap(t, depth, fn) ==
  IF depth = 0 THEN Call(fn, t.c) ELSE U([i \in 1..Len(t.c) |-> TreeStarMap(t.c[i], depth - 1, fn)])

-----------------------------------------------------------------------------
(* Per-axis specifications: [st, t |-> tree, ip |-> number of index levels].  *)
Spec(t, item) ==
  LET e == Expand(t, item)
  IN IF e.st # "ok" THEN [st |-> e.st, t |-> t, ip |-> 0]
     ELSE LET old == Shape(t, TRUE)
          IN [st |-> "ok", t |-> e.t,
              ip |-> IF Len(old) > Len(item) THEN Len(old) - Len(item) ELSE 0]
(* With the index shape given instead: the data are taken as they are.        *)
SpecAt(t, index) ==
  LET s == Shape(t, TRUE)
  IN IF \E i \in 1..Len(index) : index[i] # -1 /\ (i > Len(s) \/ index[i] # s[i]) THEN [st |-> "err", t |-> t, ip |-> 0]
     ELSE IF Len(index) > Len(s) THEN [st |-> "any", t |-> t, ip |-> 0]
     ELSE [st |-> "ok", t |-> t, ip |-> Len(index)]
IndexShape(sp) == SubSeq(Shape(sp.t, TRUE), 1, sp.ip)
ItemShape(sp)  == LET s == Shape(sp.t, TRUE) IN SubSeq(s, sp.ip + 1, Len(s))
SpecLen(sp)    == IF sp.ip = 0 THEN 0 ELSE Len(sp.t.c)
InRange(n, i)  == i >= -n /\ i < n
PyIx(n, i)     == IF i >= 0 THEN i + 1 ELSE n + i + 1
RECURSIVE GetPath(_, _)
GetPath(t, path) ==    \* [st, t]
  IF path = <<>> THEN [st |-> "ok", t |-> t]
  ELSE IF ~InRange(Len(t.c), path[1]) THEN [st |-> "err", t |-> t]
  ELSE GetPath(t.c[PyIx(Len(t.c), path[1])], Tail(path))
Get(sp, path) ==
  IF sp.ip = 0 THEN [st |-> "ok", t |-> sp.t]
  ELSE IF Len(path) > sp.ip THEN [st |-> "err", t |-> sp.t]
  ELSE GetPath(sp.t, path)
Item(sp, i) == IF sp.ip = 0 THEN sp.t ELSE sp.t.c[PyIx(Len(sp.t.c), i)]

(* Common index shape of several specifications: <<shape>> or <<>> (clash).   *)
AggShape(sps) ==
  LET S == {IndexShape(sps[i]) : i \in 1..Len(sps)}
      N == S \ {<<>>}
  IN IF Cardinality(N) > 1 THEN <<>> ELSE IF N = {} THEN << <<>> >> ELSE <<CHOOSE s \in N : TRUE>>
RECURSIVE ApplyAt(_, _, _, _)
ApplyAt(fn, sps, shape, path) ==
  IF Len(path) = Len(shape)
  THEN Call(fn, [i \in 1..Len(sps) |-> Get(sps[i], path).t])
  ELSE U([j \in 1..shape[Len(path) + 1] |-> ApplyAt(fn, sps, shape, Append(path, j - 1))])

-----------------------------------------------------------------------------
(* Parameter lists of layers: specifications with at most one index level, as *)
(* native values: [n |-> 0, it |-> <<item>>] or [n |-> count, it |-> items].  *)
Params(sp, Conv(_)) ==
  IF sp.ip = 0 THEN [n |-> 0, it |-> <<Conv(sp.t)>>]
  ELSE [n |-> Len(sp.t.c), it |-> [i \in 1..Len(sp.t.c) |-> Conv(sp.t.c[i])]]
PGet(p, i) == IF p.n = 0 THEN p.it[1] ELSE p.it[PyIx(p.n, i)]     \* i as in Python
Num(t) == t.v
Pair(t) == <<t.c[1].v, t.c[2].v>>
OptNum(t) == IF t.k = "n" THEN <<>> ELSE <<t.v>>
OptPair(t) == <<OptNum(t.c[1]), OptNum(t.c[2])>>
NumSeq(t) == [i \in 1..Len(t.c) |-> t.c[i].v]
AggN(ns) ==   \* common number of items; -1 when they clash
  LET N == {ns[i] : i \in 1..Len(ns)} \ {0}
  IN IF N = {} THEN 0 ELSE IF Cardinality(N) = 1 THEN CHOOSE n \in N : TRUE ELSE -1
=============================================================================
