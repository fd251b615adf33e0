------------------------------ MODULE MC_Loss ------------------------------
(* Edge losses between two batches.  Starting from equal batches, samples of  *)
(* the second one are changed one at a time.  Equal batches have no loss, the *)
(* plain loss is non-negative and symmetric, obeys the triangle inequality    *)
(* with every batch visited, and scaling both scales the plain and the summed *)
(* loss once, the multiplicative one twice and the divisive one not at all.   *)
EXTENDS Filters, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES x, y, seen, left
vars == <<x, y, seen, left>>
ToSet(q) == {q[j] : j \in 1..Len(q)}
Gen(s, m) == [s |-> s, d |-> [q \in 1..ProdSeq(s) |-> (m * q * q + 5 * q) % 13]]
Init == /\ \E s \in ToSet(Cfg.shapes) : \E m \in ToSet(Cfg.mult) : x = Gen(s, m)
        /\ y = x /\ seen = x /\ left = Cfg.steps
Change == /\ left > 0
          /\ \E i \in ToSet(Cfg.at), v \in ToSet(Cfg.values) : i <= Len(y.d) /\ y.d[i] # v /\ y' = [y EXCEPT !.d[i] = v]
          /\ left' = left - 1 /\ seen' = y /\ UNCHANGED x
Emit == /\ left = 0 /\ PrintT(<<"C", ToJson([s |-> x.s, x |-> x.d, y |-> y.d])>>) /\ left' = -1 /\ UNCHANGED <<x, y, seen>>
Next == Change \/ Emit
-----------------------------------------------------------------------------
Layer(k) == [cls |-> "SeparablePoolNd", kernel |-> OneKernel(k), stride |-> [n |-> 0, it |-> <<1>>], pad |-> <<"p">>, cip |-> TRUE]
H == ("p" :> DefaultPadder("reflect")) @@ ("g" :> [cls |-> "EdgeFilter", ef |-> "e", sf |-> "s"])
     @@ ("e" :> Layer(<<-1, 0, 1>>)) @@ ("s" :> Layer(<<"1/4", "1/2", "1/4">>))
Loss(kind, u, v) == EdgeLoss(H, [gg |-> "g"], kind, u, v)
P(u, v) == Loss("GaussianEdgeLoss", u, v).v
Laws ==
  /\ RLe(0, P(x, y)) /\ REq(P(x, y), P(y, x)) /\ REq(P(x, x), 0)
  /\ RLe(P(x, y), RAdd(P(x, seen), P(seen, y)))
  /\ REq(P(TScale(3, x), TScale(3, y)), RMul(3, P(x, y)))
  /\ REq(P(TShift(2, x), TShift(2, y)), P(x, y))
  /\ LET m(u, v) == Loss("WeightedMul", u, v).v IN REq(m(TScale(3, x), TScale(3, y)), RMul(9, m(x, y))) /\ REq(m(x, x), 0)
  /\ LET s(u, v) == Loss("WeightedSum", u, v).v
     IN REq(s(TScale(3, x), TScale(3, y)), RMul(3, s(x, y))) /\ REq(s(x, x), 0) /\ RLe(0, s(x, y)) /\ REq(s(x, y), s(y, x))
        /\ RLe(s(x, y), P(x, y))
  /\ LET d(u, v) == Loss("WeightedDiv", u, v)
     IN (d(x, y).st = "ok" /\ d(TScale(3, x), TScale(3, y)).st = "ok") =>
          RClose(d(TScale(3, x), TScale(3, y)).v, d(x, y).v, "1/1000000000000", 0)
=============================================================================
