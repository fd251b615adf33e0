------------------------------ MODULE MC_Power ------------------------------
(* Safe power.  For whole exponents a machine multiplies repeatedly (or       *)
(* divides); for p-th roots it is undone by multiplying.  Laws over a grid of *)
(* bases, exponents and epsilons: sign preserved for fractional exponents,    *)
(* exponent one the identity, monotone in |x|, finite everywhere but at       *)
(* negative whole powers of zero; broadcasting follows the shapes.            *)
EXTENDS Misc, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES x, e, eps, acc, k
vars == <<x, e, eps, acc, k>>
Pick(s) == {j \in 1..Len(s) : TRUE}
Init == /\ \E a \in Pick(Cfg.base), b \in Pick(Cfg.exp), c \in Pick(Cfg.eps) :
             x = Cfg.base[a] /\ e = Cfg.exp[b] /\ eps = Cfg.eps[c]
        /\ acc = 1 /\ k = 0
Mult == /\ IsInt(e) /\ k # 99 /\ k # e
        /\ IF RLt(0, e) THEN acc' = RMul(acc, x) /\ k' = k + 1
           ELSE ~REq(x, 0) /\ acc' = RDiv(acc, x) /\ k' = k - 1
        /\ UNCHANGED <<x, e, eps>>
Emit == /\ k # 99 /\ (IF IsInt(e) THEN (k = e \/ (REq(x, 0) /\ RLt(e, 0))) ELSE TRUE)
        /\ PrintT(<<"C", ToJson([x |-> x, e |-> e, eps |-> eps])>>)
        /\ k' = 99 /\ UNCHANGED <<x, e, eps, acc>>
Next == Mult \/ Emit
-----------------------------------------------------------------------------
v == SafePow(x, e, eps)
Close(a, b) == RClose(a, b, "1/1000000000000000", "1/1000000000000000")
Whole == (k = 99 /\ IsInt(e) /\ RIsNum(v)) => REq(v, acc)
Finite == ~RIsNum(v) => REq(x, 0) /\ RLt(e, 0)
Sign == (~IsInt(e) /\ ~REq(x, 0)) => REq(RSgn(v), RSgn(x))
Odd == (~IsInt(e) /\ ~REq(x, 0)) => Close(SafePow(RNeg(x), e, eps), RNeg(v))
Undone == (~IsInt(e) /\ ~REq(x, 0)) =>     \* denominator at most 4
  LET d == CHOOSE m \in 2..4 : IsInt(RMul(m, e)) IN Close(RPow(RAbs(v), d), RPow(RAbs(x), RFloor(RMul(d, e))))
AtZero == (~IsInt(e) /\ REq(x, 0) /\ RLt(0, eps)) =>
  LET d == CHOOSE m \in 2..4 : IsInt(RMul(m, e)) IN Close(RPow(v, d), RPow(eps, RFloor(RMul(d, e))))
Grows == (RLt(0, x) /\ RIsNum(v)) =>
  LET w == SafePow(RAdd(x, 1), e, eps) IN IF RLt(0, e) THEN RLt(v, w) ELSE RLe(w, v)
Broadcasts ==
  /\ BShape(<<2, 1>>, <<3>>) = [ok |-> TRUE, s |-> <<2, 3>>]
  /\ ~BShape(<<2>>, <<3>>).ok /\ BShape(<<>>, <<2, 2>>).s = <<2, 2>>
=============================================================================
