------------------------------- MODULE MC_Edge -------------------------------
(* Statistic and fill paddings.  The samples next to an edge are scanned one  *)
(* after another from the edge inwards and inserted into a sorted list; then  *)
(* the padding is laid down cell by cell from the edge outwards.              *)
(* Signals range over every sequence of the given length over 1..len, that is *)
(* over every weak ordering of the samples, which is all that maximum, minimum*)
(* and median depend on; sums over the generic values decide the mean.        *)
EXTENDS Extension, Json, IOUtils, FiniteSets

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES mode, f, side, len,    \* len: <<>> or <<configured length>>
          w,                     \* padding width on this side
          cnt, acc,              \* samples scanned, sorted
          out                    \* padding, from the edge outwards
vars == <<mode, f, side, len, w, cnt, acc, out>>
ToSet(q) == {q[j] : j \in 1..Len(q)}
Init == /\ mode \in ToSet(Cfg.modes)
        /\ \E n \in 1..Cfg.n : f \in [1..n -> 1..n]
        /\ side \in {"before", "after"}
        /\ len \in (IF mode \in StatModes THEN {<<>>} \cup {<<l>> : l \in 0..(Cfg.n + 1)} ELSE {<<>>})
        /\ w \in 1..Cfg.w
        /\ cnt = 0 /\ acc = <<>> /\ out = <<>>
n == Len(f)
At_(d) == IF side = "before" THEN f[d] ELSE f[n + 1 - d]      \* d-th sample from the edge
Want == StatLen(len, n)
Insert(q, v) == LET k == Cardinality({i \in 1..Len(q) : q[i] <= v})
                IN SubSeq(q, 1, k) \o <<v>> \o SubSeq(q, k + 1, Len(q))
Scan == /\ mode \in StatModes /\ cnt >= 0 /\ cnt < Want
        /\ cnt' = cnt + 1
        /\ acc' = Insert(acc, At_(cnt + 1))
        /\ UNCHANGED <<mode, f, side, len, w, out>>
Ready == mode \notin StatModes \/ cnt = Want
EndV == 30      \* configured value on this side
Cell_(d) ==     \* the padding at distance d from the edge
  CASE mode = "maximum" -> acc[Len(acc)]
    [] mode = "minimum" -> acc[1]
    [] mode = "median"  -> acc[(Len(acc) + 1) \div 2]
    [] mode = "mean"    -> RDiv(RSum(acc), Len(acc))
    [] mode = "constant" -> EndV
    [] mode = "zeros"   -> 0
    [] mode = "linear_ramp" -> RAdd(IF d = 1 THEN At_(1) ELSE out[d - 1], RDiv(RSub(EndV, At_(1)), w))
Lay == /\ Ready /\ Len(out) < w
       /\ out' = Append(out, Cell_(Len(out) + 1))
       /\ UNCHANGED <<mode, f, side, len, w, cnt, acc>>
Emit == /\ Len(out) = w /\ cnt >= 0
        /\ (f[1] <= 2 => PrintT(<<"C", ToJson([mode |-> mode, f |-> f, side |-> side, len |-> len, w |-> w])>>))
        /\ cnt' = -1
        /\ UNCHANGED <<mode, f, side, len, w, acc, out>>
Next == Scan \/ Lay \/ Emit

-----------------------------------------------------------------------------
Sorted == /\ \A i \in 1..(Len(acc) - 1) : acc[i] <= acc[i + 1]
          /\ cnt >= 0 => \A v \in 1..n : Cardinality({i \in 1..Len(acc) : acc[i] = v}) = Cardinality({d \in 1..cnt : At_(d) = v})
(* The median is the lower one: fewer than half are smaller, at most half larger*)
Median == (mode = "median" /\ out # <<>>) =>
  LET m == out[1] k == Len(acc) IN
  /\ \E d \in 1..k : At_(d) = m
  /\ 2 * Cardinality({d \in 1..k : At_(d) < m}) < k
  /\ 2 * Cardinality({d \in 1..k : At_(d) > m}) <= k
Extremes == (mode \in {"maximum", "minimum"} /\ out # <<>>) =>
  /\ \E d \in 1..Len(acc) : At_(d) = out[1]
  /\ \A d \in 1..Len(acc) : IF mode = "maximum" THEN At_(d) <= out[1] ELSE At_(d) >= out[1]
Whole == Len(out) = w =>
  LET b == IF side = "before" THEN w ELSE 0
      a == IF side = "after" THEN w ELSE 0
      \* the other side's values must not matter
      two(v, o) == IF side = "before" THEN <<v, o>> ELSE <<o, v>>
      y == Extend(mode, f, b, a, [cv |-> two(EndV, 99), ev |-> two(EndV, 98), sl |-> two(len, <<1>>)])
  IN /\ Len(y) = n + w
     /\ \A d \in 1..w : REq(out[d], IF side = "before" THEN y[w + 1 - d] ELSE y[n + d])
     /\ \A i \in 1..n : REq(y[b + i], f[i])
(* A ramp ends at the configured value and has equal steps.                   *)
Ramp == (mode = "linear_ramp" /\ Len(out) = w) =>
  /\ REq(out[w], EndV)
  /\ \A d \in 2..w : REq(RSub(out[d], out[d - 1]), RSub(out[1], At_(1)))
=============================================================================
