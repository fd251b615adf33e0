---------------------------- MODULE MC_Describe ----------------------------
(* Summary statistics.  A sample is shuffled by swapping neighbours: the      *)
(* description never changes, the quantiles are in order and inside the range,*)
(* at most that share of the sample lies strictly below, and shifting or      *)
(* scaling the sample shifts or scales the description.                       *)
EXTENDS Misc, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES s0, s
vars == <<s0, s>>
ToSet(u) == {u[j] : j \in 1..Len(u)}
RECURSIVE Rising(_, _)
Rising(k, S) == IF k = 0 THEN {<<>>} ELSE {<<a>> \o r : a \in S, r \in Rising(k - 1, S)}
Ordered(u) == \A i \in 1..(Len(u) - 1) : u[i] <= u[i + 1]
Init == /\ s0 \in {u \in UNION {Rising(k, ToSet(Cfg.values)) : k \in 2..Cfg.len} : Ordered(u)}
        /\ s = s0
Swap == \E i \in 1..(Len(s) - 1) : s' = [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] /\ UNCHANGED s0
Next == Swap
Printed == PrintT(<<"C", ToJson([d |-> s])>>)
-----------------------------------------------------------------------------
D == Describe(s)
SameD(a, b) == /\ REq(a.mean, b.mean) /\ REq(a.std, b.std) /\ REq(a.min, b.min) /\ REq(a.max, b.max)
               /\ REq(a.q25, b.q25) /\ REq(a.q50, b.q50) /\ REq(a.q75, b.q75)
Unmoved == SameD(D, Describe(s0))
InOrder == RLe(D.min, D.q25) /\ RLe(D.q25, D.q50) /\ RLe(D.q50, D.q75) /\ RLe(D.q75, D.max)
           /\ RLe(D.min, D.mean) /\ RLe(D.mean, D.max) /\ RLe(0, D.std)
Below(v) == Len(SelectSeq(s, LAMBDA u : RLt(u, v)))
AtMost(v) == Len(SelectSeq(s, LAMBDA u : RLe(u, v)))
Share(v, f) == LET m == RFloor(RMul(f, Len(s) - 1)) + 1 IN Below(v) <= m /\ AtMost(v) >= m
Shares == Share(D.q25, "1/4") /\ Share(D.q50, "1/2") /\ Share(D.q75, "3/4")
Moved == LET T == Describe([i \in 1..Len(s) |-> RAdd(RMul(3, s[i]), 5)])
             A(v) == RAdd(RMul(3, v), 5)
         IN /\ REq(T.mean, A(D.mean)) /\ REq(T.min, A(D.min)) /\ REq(T.max, A(D.max))
            /\ REq(T.q25, A(D.q25)) /\ REq(T.q50, A(D.q50)) /\ REq(T.q75, A(D.q75))
            /\ RClose(T.std, RMul(3, D.std), "1/10000000000000000000", 0)
(* Spread of two samples a, b: |a-b| / sqrt 2.                                *)
Pairs == Len(s) = 2 => RClose(RMul(2, RMul(D.std, D.std)), RPow(RSub(s[1], s[2]), 2), "1/10000000000000000000", 0)
=============================================================================
