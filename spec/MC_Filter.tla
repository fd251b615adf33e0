------------------------------ MODULE MC_Filter ------------------------------
(* Edge filters, Laplacians and unsharp masking on all small padded images.   *)
(* An image is changed one step at a time - raised, negated, mirrored along an*)
(* axis, transposed - and the filter's components must change accordingly.    *)
(* Then the sharpening amount and threshold climb: elements leave the sharp   *)
(* image for the original one by one.                                         *)
EXTENDS Filters, Json, IOUtils, FiniteSets

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES x,              \* 2-d image
          edge, smooth,   \* odd-sized kernels
          mode,           \* padding mode
          am, th          \* amount and threshold
vars == <<x, edge, smooth, mode, am, th>>
ToSet(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
Init == /\ \E s \in ToSet(Cfg.shapes) : x \in {[s |-> s, d |-> d] : d \in Lists(ProdSeq(s), ToSet(Cfg.values))}
        /\ edge \in {<<-1, 0, 1>>, <<1, -2, 1>>}
        /\ \E j \in 1..Len(Cfg.smooth) : smooth = Cfg.smooth[j]
        /\ mode \in ToSet(Cfg.modes)
        /\ am = 0 /\ th = 0
Climb == /\ \/ am < 2 /\ am' = am + 1 /\ UNCHANGED th
            \/ am = 2 /\ th < 9 /\ th' = th + 3 /\ UNCHANGED am
         /\ UNCHANGED <<x, edge, smooth, mode>>
Emit == /\ th = 9 /\ PrintT(<<"C", ToJson([s |-> x.s, d |-> x.d, edge |-> edge, smooth |-> smooth, mode |-> mode])>>)
        /\ th' = 99 /\ UNCHANGED <<x, edge, smooth, mode, am>>
Next == (th # 99 /\ Climb) \/ Emit
-----------------------------------------------------------------------------
Layer(k) == [cls |-> "SeparablePoolNd", kernel |-> OneKernel(k), stride |-> [n |-> 0, it |-> <<1>>], pad |-> <<"p">>, cip |-> TRUE]
H == ("p" :> DefaultPadder(mode)) @@ ("e" :> Layer(edge)) @@ ("s" :> Layer(smooth))
O == [cls |-> "EdgeFilter", ef |-> "e", sf |-> "s"]
C(u) == Components(H, O, u, <<0, 1>>, 1).ts
Same(u, v) == u.s = v.s /\ RFirstBad(u.d, v.d, 0, 0) = 0
Swap(u) == Build(<<u.s[2], u.s[1]>>, LAMBDA ix : At(u, <<ix[2], ix[1]>>))
Mirror(u, a) == Build(u.s, LAMBDA ix : At(u, [ix EXCEPT ![a + 1] = u.s[a + 1] - 1 - @]))
Start == am = 0 /\ th = 0
Odd == REq(edge[1], RNeg(edge[3]))
Copy == mode \in {"replicate", "reflect", "symmetric", "circular"}    \* keep constants, commute with mirroring
Components_ == Start =>
  LET c == C(x) IN
  /\ Len(c) = 2 /\ c[1].s = x.s /\ c[2].s = x.s
  /\ LET t == C(Swap(x)) IN Same(t[1], Swap(c[2])) /\ Same(t[2], Swap(c[1]))
  /\ LET m == C(TScale(-2, x)) IN Same(m[1], TScale(-2, c[1])) /\ Same(m[2], TScale(-2, c[2]))
  /\ Copy => /\ LET r == C(TShift(7, x)) IN Same(r[1], c[1]) /\ Same(r[2], c[2])
             /\ \A a \in {0, 1} : LET m == C(Mirror(x, a)) IN \A i \in {1, 2} :
                  Same(m[i], TScale(IF Odd /\ i = a + 1 THEN -1 ELSE 1, Mirror(c[i], a)))
  /\ (\A i \in 1..Len(x.d) : x.d[i] = x.d[1]) /\ Copy => \A i \in 1..Len(x.d) : REq(c[1].d[i], 0) /\ REq(c[2].d[i], 0)
Magnitude_ == Start =>
  LET m == Magnitude(H, O, x, <<0, 1>>, 0, 2) c == C(x) IN
  m.st = "ok" /\ \A i \in 1..Len(x.d) : RClose(RMul(m.t.d[i], m.t.d[i]), RAdd(RPow(c[1].d[i], 2), RPow(c[2].d[i], 2)), "1/1000000000000000", 0)
US(a, t) == Unsharp(H, [blur |-> "s", amount |-> a, threshold |-> t], x, <<0, 1>>, 0).t
Amount == th = 0 =>
  LET y == US(am, 0) IN
  /\ am = 0 => Same(y, x)
  /\ Same(TSub(y, x), TScale(am, TSub(US(1, 0), x)))
Threshold == (am = 2 /\ th \in {3, 6, 9}) =>
  LET T == RDiv(th, 4) y == US(2, T) z == US(2, RDiv(th - 3, 4)) s == US(2, 0) d == TSub(US(1, 0), x) IN
  /\ \A i \in 1..Len(x.d) : REq(y.d[i], IF RLt(RAbs(d.d[i]), T) THEN x.d[i] ELSE s.d[i])
  /\ \A i \in 1..Len(x.d) : REq(y.d[i], z.d[i]) \/ REq(y.d[i], x.d[i])
=============================================================================
