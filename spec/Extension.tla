----------------------------- MODULE Extension -----------------------------
(* The documented infinite extensions of a 1-d signal f (f[1..n]).            *)
(* Value(mode, f, k) is the extended signal at position k relative to the     *)
(* first sample: f[k+1] for 0 <= k < n.                                       *)
EXTENDS Rat, TLC

At0(f, k) == f[k + 1]
Mod(a, m) == a % m                     \* TLA+ %: result in 0..m-1
Div(a, m) == a \div m                  \* floor

CopyModes  == {"replicate", "circular", "periodize", "symmetric", "reflect"}
OddModes   == {"antisymmetric", "odd_reflect", "odd_symmetric", "smooth"}
FillModes  == {"constant", "zeros", "linear_ramp"}
StatModes  == {"maximum", "minimum", "mean", "median"}
SignalModes == CopyModes \cup OddModes
AllModes   == SignalModes \cup FillModes \cup StatModes \cup {"empty"}

Replicate(f, k) == LET n == Len(f) IN
  IF k < 0 THEN At0(f, 0) ELSE IF k >= n THEN At0(f, n - 1) ELSE At0(f, k)
Circular(f, k)  == At0(f, Mod(k, Len(f)))
Repeated(f)     == IF Len(f) % 2 = 1 THEN Append(f, f[Len(f)]) ELSE f
Symmetric(f, k) == LET n == Len(f) m == Mod(k, 2 * n) IN
  IF m < n THEN At0(f, m) ELSE At0(f, 2 * n - 1 - m)
Antisymmetric(f, k) == LET n == Len(f) m == Mod(k, 2 * n) IN
  IF m < n THEN At0(f, m) ELSE RNeg(At0(f, 2 * n - 1 - m))
Reflect(f, k) == LET n == Len(f) IN
  IF n = 1 THEN f[1]
  ELSE LET p == n - 1 m == Mod(k, 2 * p) IN
       IF m <= p THEN At0(f, m) ELSE At0(f, 2 * p - m)
(* point reflection about the edge sample: one period of 2(n-1) samples rises *)
(* by twice the difference of the edge samples                                *)
OddReflect(f, k) == LET n == Len(f) IN
  IF n = 1 THEN f[1]
  ELSE LET p == n - 1
           m == Mod(k, 2 * p)
           t == Div(k, 2 * p)
           base == IF m <= p THEN At0(f, m) ELSE RSub(RMul(2, At0(f, p)), At0(f, 2 * p - m))
       IN RAdd(base, RMul(2 * t, RSub(At0(f, p), At0(f, 0))))
OddSymmetric(f, k) ==
  LET n == Len(f)
      m == Mod(k, 2 * n)
      t == Div(k, 2 * n)
      base == IF m < n THEN At0(f, m) ELSE RSub(RMul(2, At0(f, n - 1)), At0(f, 2 * n - 1 - m))
  IN RAdd(base, RMul(2 * t, RSub(At0(f, n - 1), At0(f, 0))))
Smooth(f, k) == LET n == Len(f) IN
  IF n = 1 THEN f[1]
  ELSE IF k < 0 THEN RAdd(f[1], RMul(k, RSub(f[2], f[1])))
  ELSE IF k >= n THEN RAdd(f[n], RMul(k - (n - 1), RSub(f[n], f[n - 1])))
  ELSE At0(f, k)

Value(mode, f, k) ==
  CASE mode = "replicate"     -> Replicate(f, k)
    [] mode = "circular"      -> Circular(f, k)
    [] mode = "periodize"     -> Circular(Repeated(f), k)
    [] mode = "symmetric"     -> Symmetric(f, k)
    [] mode = "antisymmetric" -> Antisymmetric(f, k)
    [] mode = "reflect"       -> Reflect(f, k)
    [] mode = "odd_reflect"   -> OddReflect(f, k)
    [] mode = "odd_symmetric" -> OddSymmetric(f, k)
    [] mode = "smooth"        -> Smooth(f, k)

(* Number of samples between the paddings: periodize completes odd lengths.   *)
Body(mode, n) == IF mode = "periodize" /\ n % 2 = 1 THEN n + 1 ELSE n

(* Statistics.  The lower median.                                             *)
Stat(mode, q) ==
  LET o == RSorted(q) IN
  CASE mode = "maximum" -> o[Len(o)]
    [] mode = "minimum" -> o[1]
    [] mode = "median"  -> o[(Len(o) + 1) \div 2]
    [] mode = "mean"    -> RDiv(RSum(q), Len(q))
(* L is <<>> (whole axis) or <<length>>                                       *)
StatLen(L, n) == IF L = <<>> THEN n ELSE IF L[1] < 1 THEN 1 ELSE IF L[1] > n THEN n ELSE L[1]

(* User-supplied padding functions of the harness, by name:                   *)
(*  "fn:count"  writes d at distance d before, -d at distance d after         *)
(*  "fn:edge2"  writes twice the nearest edge sample                          *)
(*  "fn:swap"   writes the first sample after and the last sample before      *)
CustomModes == {"fn:count", "fn:edge2", "fn:swap"}
CustomBefore(mode, f, d) ==
  CASE mode = "fn:count" -> d
    [] mode = "fn:edge2" -> RMul(2, f[1])
    [] mode = "fn:swap"  -> f[Len(f)]
CustomAfter(mode, f, d) ==
  CASE mode = "fn:count" -> -d
    [] mode = "fn:edge2" -> RMul(2, f[Len(f)])
    [] mode = "fn:swap"  -> f[1]

(* The padded signal.  par = [cv, ev, sl]: constants, end values, statistic   *)
(* lengths, each a pair (before, after).                                      *)
Extend(mode, f, b, a, par) ==
  LET n == Len(f)
      m == Body(mode, n)
      Q(F(_)) == [i \in 1..(b + m + a) |-> F(i - 1 - b)]
      Sides(B(_), A(_)) == [i \in 1..(b + n + a) |->
           IF i <= b THEN B(i - 1) ELSE IF i > b + n THEN A(i - b - n) ELSE f[i - b]]
      \* B takes the 0-based position from the outer end, A the distance 1..a
  IN IF b = 0 /\ a = 0 THEN f
     ELSE IF REq(f[1], "?") THEN [i \in 1..(b + m + a) |-> "?"]
     ELSE CASE mode \in SignalModes ->
              LET F(k) == Value(mode, f, k) IN Q(F)
            [] mode = "zeros" ->
              LET Z(j) == 0 IN Sides(Z, Z)
            [] mode = "constant" ->
              LET B(j) == par.cv[1]  A(j) == par.cv[2] IN Sides(B, A)
            [] mode = "linear_ramp" ->
              LET B(j) == RAdd(par.ev[1], RMul(RDiv(j, b), RSub(f[1], par.ev[1])))
                  A(d) == RAdd(f[n], RMul(RDiv(d, a), RSub(par.ev[2], f[n])))
              IN Sides(B, A)
            [] mode \in StatModes ->
              LET lb == StatLen(par.sl[1], n)
                  la == StatLen(par.sl[2], n)
                  vb == IF b > 0 THEN Stat(mode, SubSeq(f, 1, lb)) ELSE 0
                  va == IF a > 0 THEN Stat(mode, SubSeq(f, n - la + 1, n)) ELSE 0
                  B(j) == vb  A(d) == va
              IN Sides(B, A)
            [] mode \in CustomModes ->
              LET B(j) == CustomBefore(mode, f, b - j)
                  A(d) == CustomAfter(mode, f, d)
              IN Sides(B, A)
            [] mode = "empty" ->
              LET U(j) == "?" IN Sides(U, U)
=============================================================================
