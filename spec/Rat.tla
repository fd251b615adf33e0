--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic.                                                *)
(*                                                                           *)
(* A rational number is represented by an Int when it is one, and otherwise  *)
(* by a canonical decimal string "n/d".  The definitions below are the       *)
(* meaning on the integer fragment (where they can be evaluated by TLC as    *)
(* they stand); java/Rat.java overrides every operator with arbitrary        *)
(* precision arithmetic on all rationals, because TLC's own integers have 32 *)
(* bits.  Always compare with REq: TLC refuses to compare an Int and a       *)
(* string.  The tokens "nan", "inf", "-inf" are what a floating-point        *)
(* implementation may return; they are never close to any rational.  The     *)
(* token "?" in an EXPECTED value means "unspecified": anything is close.    *)
EXTENDS Integers, Sequences

RIsNum(a)   == TRUE
RAdd(a, b)  == a + b
RSub(a, b)  == a - b
RMul(a, b)  == a * b
RDiv(a, b)  == CHOOSE q \in Int : q * b = a
RNeg(a)     == 0 - a
RAbs(a)     == IF a < 0 THEN 0 - a ELSE a
RFloor(a)   == a
RLt(a, b)   == a < b
RLe(a, b)   == a <= b
REq(a, b)   == a = b
IsInt(q)    == REq(RFloor(q), q)
RECURSIVE RPow(_, _)
RPow(a, k)  == IF k = 0 THEN 1 ELSE a * RPow(a, k - 1)
RRound(a, k) == a       \* nearest multiple of 10^-k
RECURSIVE RSum(_)
RSum(s)     == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(s, t)  == IF s = <<>> THEN 0
               ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))
RClose(a, b, at, rt) == RLe(RAbs(RSub(a, b)), RAdd(at, RMul(rt, RAbs(b))))
RFirstBad(s, t, at, rt) ==
  IF Len(s) # Len(t) THEN -1
  ELSE IF \A i \in 1..Len(s) : RClose(s[i], t[i], at, rt) THEN 0
  ELSE CHOOSE i \in 1..Len(s) :
         /\ ~RClose(s[i], t[i], at, rt)
         /\ \A j \in 1..(i-1) : RClose(s[j], t[j], at, rt)
RMaxAbs(s)  == IF s = <<>> THEN 0
               ELSE CHOOSE m \in {RAbs(s[i]) : i \in 1..Len(s)} :
                      \A i \in 1..Len(s) : RLe(RAbs(s[i]), m)
RSorted(s)  == CHOOSE t \in [1..Len(s) -> {s[i] : i \in 1..Len(s)}] :
                 /\ \A i \in 1..(Len(s)-1) : RLe(t[i], t[i+1])
                 /\ \A x \in {s[i] : i \in 1..Len(s)} :
                      Len(SelectSeq(s, LAMBDA y : REq(y, x))) = Len(SelectSeq(t, LAMBDA y : REq(y, x)))

(* Derived *)
RMin(a, b)  == IF RLe(a, b) THEN a ELSE b
RMax(a, b)  == IF RLe(a, b) THEN b ELSE a
RSgn(a)     == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0
=============================================================================
