---------------------------- MODULE MC_Extension ----------------------------
(* How a signal is extended in place: the padded buffer starts with the       *)
(* original samples in its middle and is filled outwards chunk by chunk, each *)
(* chunk copied (mirrored, negated, reflected through the edge sample) from   *)
(* cells that are already filled.  The two sides are filled in any            *)
(* interleaving.  TLC visits every state for every mode, length and pair of   *)
(* widths within the bounds and checks that no step ever writes anything but  *)
(* the infinite extension of module Extension.                                *)
(*                                                                            *)
(* The signal is generic: its samples are powers of a radix that exceeds      *)
(* every coefficient these modes can produce, so two linear forms in the      *)
(* samples that agree on it agree on every signal.                            *)
(*                                                                            *)
(* With BACK, the finished buffer is differentiated in reverse: the cotangent *)
(* of every chunk is moved back to the cells it was copied from, and what     *)
(* arrives at the original samples must be the transpose of the extension.    *)
EXTENDS Extension, Json, IOUtils

Cfg   == JsonDeserialize(IOEnv.MODEL)
RADIX == Cfg.radix

VARIABLES mode, n, b, a,    \* the case
          y,                \* buffer, "?" where not yet filled
          lo, hi,           \* filled cells: lo .. hi-1 (from 0)
          fb, fa,           \* next chunk before / after is a mirrored one
          log,              \* the chunks written, newest first
          g                 \* cotangents, during the way back
vars == <<mode, n, b, a, y, lo, hi, fb, fa, log, g>>

F(k) == [i \in 1..k |-> RPow(RADIX, i)]
Size == b + Body(mode, n) + a
Tail_ == b + Body(mode, n)           \* end of the (completed) signal
Cell(i) == y[i + 1]
Unset == "?"

Init == /\ mode \in {Cfg.modes[i] : i \in 1..Len(Cfg.modes)}
        /\ n \in 1..Cfg.maxlen
        /\ b \in 0..Cfg.maxpad /\ a \in 0..Cfg.maxpad
        /\ b + a > 0
        /\ y = [i \in 1..Size |-> IF i <= b \/ i > b + n THEN (IF i = b + n + 1 /\ Body(mode, n) > n THEN F(n)[n] ELSE Unset)
                                  ELSE F(n)[i - b]]
        /\ lo = b /\ hi = Tail_
        /\ fb = TRUE /\ fa = TRUE
        /\ log = <<>>
        /\ g = <<>>

(* A term of the right-hand side of an assignment: coefficient and source.    *)
T(c, s) == <<c, s>>
One(s) == <<T(1, s)>>
Sgn_(s) == IF mode = "antisymmetric" THEN <<T(-1, s)>> ELSE <<T(1, s)>>
Min_(p, q) == IF p < q THEN p ELSE q
L == Body(mode, n)

(* The chunk written before: cells lo-1, lo-2, ..., lo-c, each a linear       *)
(* combination of filled cells.                                               *)
Single(m) == m \in {"replicate", "smooth"} \/ (n = 1 /\ m \in {"reflect", "odd_reflect", "smooth", "symmetric"})
Chunk(room, mirrored) ==
  CASE Single(mode) -> room
    [] mode \in {"circular", "periodize", "symmetric", "antisymmetric", "odd_symmetric"} -> Min_(room, L)
    [] mode = "reflect" -> Min_(room, IF n = 2 THEN 2 ELSE IF mirrored THEN n - 2 ELSE n)
    [] mode = "odd_reflect" -> Min_(room, n - 1)
BeforeTerms(j, c) ==       \* cell lo - 1 - j, j = 0..c-1
  CASE mode = "smooth" /\ n > 1 -> <<T(1 + (j + 1), b), T(-(j + 1), b + 1)>>
    [] Single(mode) -> One(b)
    [] mode \in {"circular", "periodize"} -> One(Tail_ - 1 - j)
    [] mode \in {"symmetric", "antisymmetric"} -> IF fb THEN Sgn_(lo + j) ELSE One(Tail_ - 1 - j)
    [] mode = "reflect" -> IF fb /\ n > 2 THEN One(lo + 1 + j) ELSE One(Tail_ - 1 - j)
    [] mode = "odd_symmetric" -> <<T(2, lo), T(-1, lo + j)>>
    [] mode = "odd_reflect" -> <<T(2, lo), T(-1, lo + 1 + j)>>
AfterTerms(j, c) ==        \* cell hi + j
  CASE mode = "smooth" /\ n > 1 -> <<T(1 + (j + 1), b + n - 1), T(-(j + 1), b + n - 2)>>
    [] Single(mode) -> One(Tail_ - 1)
    [] mode \in {"circular", "periodize"} -> One(b + j)
    [] mode \in {"symmetric", "antisymmetric"} -> IF fa THEN Sgn_(hi - 1 - j) ELSE One(b + j)
    [] mode = "reflect" -> IF fa /\ n > 2 THEN One(hi - 2 - j) ELSE One(b + j)
    [] mode = "odd_symmetric" -> <<T(2, hi - 1), T(-1, hi - 1 - j)>>
    [] mode = "odd_reflect" -> <<T(2, hi - 1), T(-1, hi - 2 - j)>>
Lin(ts) == RSum([k \in 1..Len(ts) |-> RMul(ts[k][1], Cell(ts[k][2]))])

Before == /\ g = <<>> /\ lo > 0
          /\ LET c == Chunk(lo, fb)
                 w == [j \in 1..c |-> <<lo - j, BeforeTerms(j - 1, c)>>]
             IN /\ y' = [i \in 1..Size |-> IF i > lo - c /\ i <= lo THEN Lin(w[lo - i + 1][2]) ELSE y[i]]
                /\ lo' = lo - c
                /\ log' = IF Cfg.back THEN <<w>> \o log ELSE log
          /\ fb' = ~fb
          /\ UNCHANGED <<mode, n, b, a, hi, fa, g>>
After ==  /\ g = <<>> /\ hi < Size
          /\ (Cfg.back => lo = 0)            \* one order is enough for the way back
          /\ LET c == Chunk(Size - hi, fa)
                 w == [j \in 1..c |-> <<hi + j - 1, AfterTerms(j - 1, c)>>]
             IN /\ y' = [i \in 1..Size |-> IF i > hi /\ i <= hi + c THEN Lin(w[i - hi][2]) ELSE y[i]]
                /\ hi' = hi + c
                /\ log' = IF Cfg.back THEN <<w>> \o log ELSE log
          /\ fa' = ~fa
          /\ UNCHANGED <<mode, n, b, a, lo, fb, g>>
Done == lo = 0 /\ hi = Size
Ct == [i \in 1..Size |-> RPow(RADIX, i)]      \* a generic cotangent
Case == [mode |-> mode, n |-> n, b |-> b, a |-> a]
Finish == /\ Done /\ g = <<>>
          /\ PrintT(<<"C", ToJson(Case)>>)
          /\ g' = IF Cfg.back THEN Ct ELSE <<0>>
          /\ UNCHANGED <<mode, n, b, a, y, lo, hi, fb, fa, log>>
(* One chunk of the way back: its cells are cleared and their cotangents moved*)
Pull(w, h) ==
  LET dst == {w[j][1] : j \in 1..Len(w)}
      In(i) == RSum([j \in 1..Len(w) |->
                 RMul(h[w[j][1] + 1], RSum([k \in 1..Len(w[j][2]) |-> IF w[j][2][k][2] = i THEN w[j][2][k][1] ELSE 0]))])
  IN [i \in 1..Size |-> IF (i - 1) \in dst THEN 0 ELSE RAdd(h[i], In(i - 1))]
Back ==  /\ Cfg.back /\ g # <<>> /\ log # <<>>
         /\ g' = Pull(Head(log), g)
         /\ log' = Tail(log)
         /\ UNCHANGED <<mode, n, b, a, y, lo, hi, fb, fa>>
Next == Before \/ After \/ Finish \/ Back

-----------------------------------------------------------------------------
(* Every filled cell holds the extension; the others are untouched.           *)
OnlyTheExtension ==
  \A i \in 1..Size : IF i > lo /\ i <= hi THEN REq(y[i], Value(mode, F(n), i - 1 - b)) ELSE REq(y[i], Unset)
(* Chunks only read filled cells and never write outside the buffer.          *)
Inside == 0 <= lo /\ lo <= b /\ Tail_ <= hi /\ hi <= Size
Complete == Done => y = Extend(mode, F(n), b, a, [cv |-> <<0, 0>>, ev |-> <<0, 0>>, sl |-> << <<>>, <<>> >>])
Unit(i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
Adjoint ==      \* back at the start: the transpose applied to the cotangent
  (Cfg.back /\ g # <<>> /\ log = <<>>) =>
    \A i \in 1..n :
      LET direct == RSum([q \in 1..Size |-> RMul(Ct[q], Value(mode, Unit(i), q - 1 - b))])
          \* the cell that completes an odd length was copied from the last sample
          extra == IF i = n /\ L > n THEN g[b + n + 1] ELSE 0
      IN REq(RAdd(g[b + i], extra), direct)
=============================================================================
