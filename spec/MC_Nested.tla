------------------------------ MODULE MC_Nested ------------------------------
(* Nested data grow from a single leaf: a leaf becomes a container, a         *)
(* container gets another leaf.  Every tree within the bounds is reached, and *)
(* on each the laws of shapes, lifting, expansion and per-axis specifications *)
(* are checked against every target within the bounds.                        *)
EXTENDS Nested, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES t, emitted
vars == <<t, emitted>>

Leaf == [k |-> "i", v |-> 0]
RECURSIVE Size(_), Depth(_), Labelled(_, _), Grown(_)
RECURSIVE SizeSum(_), DepthMax(_), LabelAll(_, _)
SizeSum(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + SizeSum(Tail(q))
Size(u) == IF IsLeaf(u) THEN 1 ELSE 1 + SizeSum(u.c)
DepthMax(q) == IF q = <<>> THEN 0 ELSE LET d == DepthMax(Tail(q)) e == Depth(Head(q)) IN IF d > e THEN d ELSE e
Depth(u) == IF IsLeaf(u) THEN 0 ELSE 1 + DepthMax(u.c)
(* Leaves numbered from left to right.                                        *)
LabelAll(q, k) == IF q = <<>> THEN [c |-> <<>>, k |-> k]
                  ELSE LET h == Labelled(Head(q), k) r == LabelAll(Tail(q), h.k)
                       IN [c |-> <<h.t>> \o r.c, k |-> r.k]
Labelled(u, k) == IF IsLeaf(u) THEN [t |-> I(k), k |-> k + 1]
                  ELSE LET r == LabelAll(u.c, k) IN [t |-> [u EXCEPT !.c = r.c], k |-> r.k]
Tree == Labelled(t, 1).t
(* All trees one step larger.                                                 *)
Grown(u) ==
  IF IsLeaf(u) THEN {[k |-> "l", c |-> <<>>]}
  ELSE {[u EXCEPT !.c = Append(@, Leaf)]}
       \cup UNION {{[u EXCEPT !.c[i] = v] : v \in Grown(u.c[i])} : i \in 1..Len(u.c)}
Init == t = Leaf /\ emitted = FALSE
Emit == /\ ~emitted
        /\ PrintT(<<"C", ToJson(Tree)>>)
        /\ emitted' = TRUE
        /\ UNCHANGED t
Grow_ == /\ ~emitted
         /\ \E u \in Grown(t) : Size(u) <= Cfg.size /\ Depth(u) <= Cfg.depth /\ t' = u
         /\ UNCHANGED emitted
Next == Emit \/ Grow_

-----------------------------------------------------------------------------
RECURSIVE Leaves(_), LeavesAll(_), Uniq(_)
LeavesAll(q) == IF q = <<>> THEN <<>> ELSE Leaves(Head(q)) \o LeavesAll(Tail(q))
Leaves(u) == IF IsLeaf(u) THEN <<u.v>> ELSE LeavesAll(u.c)
Uniq(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Uniq(SelectSeq(Tail(q), LAMBDA v : v # Head(q)))
RECURSIVE Level(_, _)      \* the containers d levels below the root
Level(u, d) == IF d = 0 THEN <<u>>
               ELSE LET q == Level(u, d - 1)
                        RECURSIVE All(_)
                        All(p) == IF p = <<>> THEN <<>> ELSE (IF IsLeaf(Head(p)) THEN <<>> ELSE Head(p).c) \o All(Tail(p))
                    IN All(q)
RECURSIVE Targets(_)
Targets(k) == IF k = 0 THEN {<<>>} ELSE Targets(k - 1) \cup {<<v>> \o r : v \in {-1, 1, 2, 3}, r \in {q \in Targets(k - 1) : Len(q) = k - 1}}

(* Reported shape: depth and level-wise common length.                        *)
ShapeLaw ==
  LET u == Tree s == Shape(u, TRUE) f == Shape(u, FALSE) IN
  /\ Len(s) <= Depth(u) /\ Len(f) = Depth(u)
  /\ \A d \in 1..Len(s) :
       LET q == Level(u, d - 1)
       IN IF s[d] >= 0 THEN \A i \in 1..Len(q) : ~IsLeaf(q[i]) /\ Len(q[i].c) = s[d]
          ELSE \E i, j \in 1..Len(q) : Len(q[i].c) # Len(q[j].c)
(* Lifting makes the depth even, keeps the leaves, and changes nothing else.  *)
LiftLaw ==
  LET u == Tree v == Lift(u) IN
  /\ Shape(v, TRUE) = Shape(u, FALSE)
  /\ Leaves(v) = Leaves(u)
  /\ TreeEq(Lift(v), v)
  /\ (Shape(u, TRUE) = Shape(u, FALSE)) => TreeEq(u, v)
(* Expansion meets the target, loses nothing, and is idempotent.              *)
ExpandLaw ==
  \A new \in Targets(Cfg.target) :
    LET u == Tree e == Expand(u, new) s == Shape(u, TRUE) r == Shape(e.t, TRUE)
        \* targets apply to the last levels
        m == Len(new)
    IN /\ e.st = "ok" =>
            /\ Len(r) >= Len(s)
            /\ Len(r) = IF m > Len(s) THEN m ELSE Len(s)
            /\ \A i \in 1..m : new[i] # -1 => r[Len(r) - m + i] = new[i]
            /\ \A i \in 1..Len(s) :
                 LET j == Len(r) - Len(s) + i IN
                 j <= Len(r) - m \/ new[j - (Len(r) - m)] = -1 => (r[j] = s[i] \/ s[i] = -1)
            /\ Uniq(Leaves(e.t)) = Leaves(u)
            /\ LET e2 == Expand(e.t, new) IN e2.st = "ok" => TreeEq(e2.t, e.t)
       /\ (m <= Len(s) /\ AllFree(new)) => e.st = "ok" /\ TreeEq(e.t, u)
       /\ (e.st = "err" /\ ~HasEmpty(u)) =>
            \E i \in 1..m : new[i] # -1 /\ Len(s) - m + i >= 1 /\ s[Len(s) - m + i] # 1 /\ s[Len(s) - m + i] # new[i]
(* Specifications.                                                            *)
Items == {<<>>, <<2>>, <<-1>>, <<2, 2>>}
SpecLaw ==
  \A item \in Items :
    LET sp == Spec(Tree, item) IN
    sp.st = "ok" =>
      /\ SpecLen(sp) = 0 <=> (sp.ip = 0 \/ Len(sp.t.c) = 0)
      /\ \A i \in (-3)..2 :
           LET g == Get(sp, <<i>>) IN
           IF sp.ip = 0 THEN g.st = "ok" /\ TreeEq(g.t, sp.t)
           ELSE /\ (g.st = "ok") <=> InRange(SpecLen(sp), i)
                /\ (g.st = "ok" /\ i < 0) => TreeEq(g.t, Get(sp, <<i + SpecLen(sp)>>).t)
      /\ IndexShape(sp) \o ItemShape(sp) = Shape(sp.t, TRUE)
      /\ \A fn \in {"neg", "sum", "dup", "count"} :
           LET m == [sp EXCEPT !.t = TreeMap(sp.t, sp.ip, fn)] IN
           \A i \in 0..2 :
             LET g == Get(sp, <<i>>) IN
             (sp.ip <= 1 /\ g.st = "ok") => TreeEq(Get(m, <<i>>).t, Call(fn, <<g.t>>))
      /\ LET z == [st |-> "ok", t |-> ApplyAt("tup", <<sp, sp>>, IndexShape(sp), <<>>), ip |-> sp.ip] IN
         \A i \in 0..2 :
           LET g == Get(sp, <<i>>) IN
           (sp.ip <= 1 /\ g.st = "ok" /\ \A j \in 1..sp.ip : IndexShape(sp)[j] >= 0) => TreeEq(Get(z, <<i>>).t, U(<<g.t, g.t>>))
=============================================================================
