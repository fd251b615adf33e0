------------------------------ MODULE Analysis ------------------------------
(* Elementary functions on rationals, correct to about PREC decimal digits    *)
(* (absolute, for arguments of moderate size).                                *)
EXTENDS Rat, TLC

PREC == 28
RR(x) == RRound(x, PREC)

RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(x, k, term, acc) ==     \* Taylor series, |x| <= 1/16
  IF k > 20 THEN acc
  ELSE LET t == RR(RDiv(RMul(term, x), k)) IN ExpTerms(x, k + 1, t, RAdd(acc, t))
RECURSIVE ExpPos(_)
ExpPos(x) ==  \* x <= 0 or small: halve until small, then square
  IF RLe(RAbs(x), "1/16") THEN ExpTerms(x, 1, 1, 1)
  ELSE LET h == ExpPos(RMul(x, "1/2")) IN RR(RMul(h, h))
RExp(x) == IF RLt(0, x) THEN RR(RDiv(1, ExpPos(RNeg(x)))) ELSE ExpPos(x)

(* p-th root of x >= 0 by Newton's method (p >= 1).                           *)
RECURSIVE RootIter(_, _, _, _)
RootIter(x, p, y, n) ==
  IF n = 0 THEN y
  ELSE LET y1 == RR(RDiv(RAdd(RMul(p - 1, y), RDiv(x, RPow(y, p - 1))), p))
       IN IF RLe(RAbs(RSub(y1, y)), "1/10000000000000000000000") THEN y1 ELSE RootIter(x, p, y1, n - 1)
RRoot(x, p) == IF RLe(x, "1/1000000000000000000000000") THEN 0
               ELSE IF p = 1 THEN x ELSE RootIter(x, p, RMax(1, x), 400)
RSqrt(x) == RRoot(x, 2)

(* ln by atanh series after reduction to [2/3, 4/3]                           *)
RECURSIVE AtanhTerms(_, _, _, _)
AtanhTerms(z2, k, pw, acc) ==
  IF k > 60 THEN acc
  ELSE AtanhTerms(z2, k + 1, RR(RMul(pw, z2)), RAdd(acc, RR(RDiv(pw, 2 * k + 1))))
LnSmall(x) == LET z == RR(RDiv(RSub(x, 1), RAdd(x, 1))) IN RMul(2, AtanhTerms(RR(RMul(z, z)), 0, z, 0))
Ln2 == LnSmall(2)
RECURSIVE RLnRec(_, _)
RLnRec(x, k) ==
  IF RLt("4/3", x) THEN RLnRec(RMul(x, "1/2"), k + 1)
  ELSE IF RLt(x, "2/3") THEN RLnRec(RMul(x, 2), k - 1)
  ELSE RR(RAdd(LnSmall(x), RMul(k, Ln2)))
RLn(x) == RLnRec(x, 0)
Ln10 == RLn(10)
RLog10(x) == RR(RDiv(RLn(x), Ln10))
RPowQ(x, w) == IF REq(x, 0) THEN (IF REq(w, 0) THEN 1 ELSE 0) ELSE RExp(RR(RMul(w, RLn(x))))   \* x >= 0

RECURSIVE AtanTerms(_, _, _, _)
AtanTerms(z2, k, pw, acc) ==
  IF k > 30 THEN acc
  ELSE AtanTerms(z2, k + 1, RR(RMul(RNeg(pw), z2)), RAdd(acc, RR(RDiv(pw, 2 * k + 1))))
RECURSIVE RAtanRec(_, _)
RAtanRec(z, n) ==
  IF n = 0 THEN AtanTerms(RR(RMul(z, z)), 0, z, 0)
  ELSE RMul(2, RAtanRec(RR(RDiv(z, RAdd(1, RSqrt(RAdd(1, RMul(z, z)))))), n - 1))
RAtan(z) == RAtanRec(z, 4)
RPi == RMul(4, RAtan(1))
=============================================================================
