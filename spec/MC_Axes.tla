------------------------------- MODULE MC_Axes -------------------------------
(* Axis arguments.  All ranks, single integers, sequences and slices within   *)
(* the bounds: valid ones denote axes of the tensor, a negative number denotes*)
(* the same axis as its positive one, everything else is rejected; slices walk*)
(* the list of axes.                                                          *)
EXTENDS Tensor, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES n, ax,
          cur, got          \* for slices: the walk
vars == <<n, ax, cur, got>>
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
Ix == (-Cfg.n - 2)..(Cfg.n + 1)
Opt == {<<>>} \cup {<<i>> : i \in Ix}
Init == /\ n \in 1..Cfg.n
        /\ \/ ax \in {[k |-> "int", a |-> i] : i \in Ix}
           \/ ax \in {[k |-> "seq", a |-> q] : q \in UNION {Lists(k, Ix) : k \in 0..Cfg.len}}
           \/ ax \in {[k |-> "slice", a |-> lo, b |-> hi, c |-> st] : lo \in Opt, hi \in Opt, st \in {<<>>, <<1>>, <<2>>, <<-1>>, <<-2>>}}
        /\ cur = 999 /\ got = <<>>
Step_ == IF ax.c = <<>> THEN 1 ELSE ax.c[1]
(* Python's rule, said another way: walk from the start towards the stop.     *)
Norm_(i) == IF i < 0 THEN i + n ELSE i
Begin == IF ax.a = <<>> THEN (IF Step_ > 0 THEN 0 ELSE n - 1)
         ELSE LET s == Norm_(ax.a[1]) IN
              IF Step_ > 0 THEN (IF s < 0 THEN 0 ELSE s) ELSE (IF s > n - 1 THEN n - 1 ELSE s)
Inside(i) == /\ i >= 0 /\ i < n
             /\ ax.b # <<>> => IF Step_ > 0 THEN i < Norm_(ax.b[1]) ELSE i > Norm_(ax.b[1])
Start == /\ ax.k = "slice" /\ cur = 999
         /\ cur' = Begin /\ UNCHANGED <<n, ax, got>>
Walk == /\ ax.k = "slice" /\ cur # 999 /\ cur # 1000 /\ Inside(cur)
        /\ got' = Append(got, cur) /\ cur' = cur + Step_ /\ UNCHANGED <<n, ax>>
Emit == /\ (ax.k # "slice" /\ cur = 999) \/ (ax.k = "slice" /\ cur # 999 /\ cur # 1000 /\ ~Inside(cur))
        /\ PrintT(<<"C", ToJson([n |-> n, ax |-> ax])>>)
        /\ cur' = 1000 /\ UNCHANGED <<n, ax, got>>
Next == Start \/ Walk \/ Emit
-----------------------------------------------------------------------------
Valid == AxesValid(n, ax)
Members == Valid => \A i \in 1..Len(Axes(n, ax)) : Axes(n, ax)[i] \in 0..(n - 1)
Rejected == ~Valid => /\ ax.k \in {"int", "seq"}
                      /\ LET q == IF ax.k = "int" THEN <<ax.a>> ELSE ax.a IN \E i \in 1..Len(q) : q[i] \notin (-n)..(n - 1)
Signs == (Valid /\ ax.k \in {"int", "seq"}) =>
  LET q == IF ax.k = "int" THEN <<ax.a>> ELSE ax.a
      p == [i \in 1..Len(q) |-> IF q[i] >= 0 THEN q[i] - n ELSE q[i] + n]
  IN Axes(n, [k |-> "seq", a |-> p]) = Axes(n, ax) /\ Len(Axes(n, ax)) = Len(q)
Walked == (cur = 1000 /\ ax.k = "slice") => got = Axes(n, ax)
Distinct_ == (ax.k = "slice") => Distinct(Axes(n, ax))
=============================================================================
