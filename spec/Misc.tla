-------------------------------- MODULE Misc --------------------------------
(* Polynomials, outer products, safe power, random operations, descriptions,  *)
(* display geometry, pad-width formats.                                       *)
EXTENDS Padding, Analysis

RECURSIVE PolyVal(_, _)
PolyVal(p, x) ==     \* highest degree first
  IF Len(p) = 1 THEN p[1]
  ELSE RAdd(RMul(PolyVal(SubSeq(p, 1, Len(p) - 1), x), x), p[Len(p)])
OuterProd(u, v) ==
  LET n == Len(v.d)
  IN [s |-> u.s \o v.s,
      d |-> TLCEval([q \in 1..(Len(u.d) * n) |-> RMul(u.d[((q - 1) \div n) + 1], v.d[((q - 1) % n) + 1])])]

(* Broadcasting of two shapes: [ok, s].                                       *)
BShape(s, t) ==
  LET n == Max2(Len(s), Len(t))
      A(u, i) == LET j == i - (n - Len(u)) IN IF j < 1 THEN 1 ELSE u[j]
      out == [i \in 1..n |-> IF A(s, i) = 1 THEN A(t, i) ELSE A(s, i)]
  IN [ok |-> \A i \in 1..n : A(s, i) = 1 \/ A(t, i) = 1 \/ A(s, i) = A(t, i), s |-> out]
BAt(x, ix) ==
  LET n == Len(ix) m == Rank(x)
  IN At(x, [i \in 1..m |-> IF x.s[i] = 1 THEN 0 ELSE ix[n - m + i]])
SafePow(x, e, eps) ==     \* "?" where unspecified
  IF IsInt(e) THEN
     IF REq(x, 0) THEN (IF RLt(e, 0) THEN "?" ELSE IF REq(e, 0) THEN 1 ELSE 0) ELSE RPow(x, RFloor(e))
  ELSE IF REq(x, 0) THEN
     IF REq(eps, 0) THEN (IF RLt(e, 0) THEN "?" ELSE 0) ELSE RPowQ(eps, e)
  ELSE RMul(RSgn(x), RPowQ(RAbs(x), e))

(* Linearly interpolated quantile q of a sequence.                            *)
(* of a sequence in which every item occurs w times.                          *)
Quantile(seq, w, q) ==
  LET o == RSorted(seq)
      n == w * Len(o)
      Nth(i) == o[(i - 1) \div w + 1]       \* i-th smallest, from 1
      pos == RMul(q, n - 1)
      lo == RFloor(pos)
      fr == RSub(pos, lo)
  IN IF lo + 2 > n THEN o[Len(o)]
     ELSE RAdd(Nth(lo + 1), RMul(fr, RSub(Nth(lo + 2), Nth(lo + 1))))
Mean(seq) == RDiv(RSum(seq), Len(seq))
SampleStd(seq, w) ==
  LET m == Mean(seq)
      v == RDiv(RMul(w, RSum([i \in 1..Len(seq) |-> RPow(RSub(seq[i], m), 2)])), w * Len(seq) - 1)
  IN RSqrt(RR(v))
DescribeRep(seq, w) ==
  [mean |-> Mean(seq), std |-> SampleStd(seq, w), min |-> RSorted(seq)[1], max |-> RSorted(seq)[Len(seq)],
   q25 |-> Quantile(seq, w, "1/4"), q50 |-> Quantile(seq, w, "1/2"), q75 |-> Quantile(seq, w, "3/4")]
Describe(seq) == DescribeRep(seq, 1)

Ppd(diag, hp, wp, dist) ==
  LET ar == RDiv(wp, hp)
      hmm == RSqrt(RR(RDiv(RMul(diag, diag), RAdd(1, RMul(ar, ar)))))
      half == RAtan(RR(RDiv(hmm, RMul(2000, dist))))
      deg == RMul(RDiv(180, RPi), RMul(2, half))
  IN RR(RDiv(hp, deg))

(* Pad-width formats: nested left-to-right pairs, or flat last-axis-first.    *)
RECURSIVE FlatOf(_)
FlatOf(w) == IF w = <<>> THEN <<>> ELSE FlatOf(Tail(w)) \o Head(w)
NestedOf(flat, n) ==
  LET m == Len(flat) \div 2
  IN [i \in 1..n |-> IF i <= n - m THEN <<0, 0>>
                     ELSE <<flat[2 * (n - i) + 1], flat[2 * (n - i) + 2]>>]

(* Crops: the offset at which block y could sit in x (elements of x distinct).*)
FindOffset(x, y) ==
  LET S == {q \in 1..Len(x.d) : REq(x.d[q], y.d[1])}
  IN IF S = {} THEN <<>> ELSE <<Unflat(x.s, (CHOOSE q \in S : TRUE) - 1)>>
IsBlock(x, y) ==
  LET o == FindOffset(x, y)
  IN /\ o # <<>>
     /\ \A i \in 1..Rank(x) : o[1][i] + y.s[i] <= x.s[i]
     /\ RFirstBad(y.d, Block(x, o[1], y.s).d, 0, 0) = 0
=============================================================================
