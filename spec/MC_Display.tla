----------------------------- MODULE MC_Display -----------------------------
(* Pixels per degree.  A viewer steps back, changes to a larger screen of the *)
(* same resolution, to more pixels of the same shape, or turns the screen.    *)
(* Stepping back gives more pixels per degree, a larger screen fewer; scaling *)
(* the pixel counts scales the result; scaling screen and distance together   *)
(* leaves it; and the display's height subtends height / ppd degrees.         *)
EXTENDS Misc, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES diag, hp, wp, dist
vars == <<diag, hp, wp, dist>>
Init == /\ diag = Cfg.diag /\ dist = "1/2" /\ \E r \in 1..Len(Cfg.res) : hp = Cfg.res[r][1] /\ wp = Cfg.res[r][2]
P == Ppd(diag, hp, wp, dist)
StepBack == RLt(dist, Cfg.far) /\ dist' = RAdd(dist, "1/4") /\ UNCHANGED <<diag, hp, wp>>
Bigger == RLt(diag, Cfg.big) /\ diag' = RAdd(diag, 150) /\ UNCHANGED <<hp, wp, dist>>
Turn == hp' = wp /\ wp' = hp /\ UNCHANGED <<diag, dist>>
Next == StepBack \/ Bigger \/ Turn
-----------------------------------------------------------------------------
Tiny == "1/1000000000000000"
Near(a, b) == RClose(a, b, Tiny, Tiny)
Printed == PrintT(<<"C", ToJson([diag |-> diag, hp |-> hp, wp |-> wp, dist |-> dist])>>)
Positive == RLt(0, P)
Further == RLt(P, Ppd(diag, hp, wp, RAdd(dist, "1/4")))
Larger == RLt(Ppd(RAdd(diag, 150), hp, wp, dist), P)
Denser == Near(Ppd(diag, 2 * hp, 2 * wp, dist), RMul(2, P))
Similar == Near(Ppd(RMul(3, diag), hp, wp, RMul(3, dist)), P)
(* Height and width of the screen make up its diagonal; the tangent of half   *)
(* the visual angle is half the height over the distance.                     *)
Turned == LET Q == Ppd(diag, wp, hp, dist)
              T(n, p) == LET a == RMul(RDiv(RPi, 360), RDiv(n, p))     \* half angle
                             RECURSIVE Sn(_, _, _)
                             Sn(j, t, acc) == IF j > 14 THEN acc ELSE
                               LET u == RR(RDiv(RNeg(RMul(t, RMul(a, a))), (2 * j) * (2 * j + 1))) IN Sn(j + 1, u, RAdd(acc, u))
                             RECURSIVE Cs(_, _, _)
                             Cs(j, t, acc) == IF j > 14 THEN acc ELSE
                               LET u == RR(RDiv(RNeg(RMul(t, RMul(a, a))), (2 * j - 1) * (2 * j))) IN Cs(j + 1, u, RAdd(acc, u))
                         IN RR(RDiv(Sn(1, a, a), Cs(1, 1, 1)))
              h == RMul(2000, RMul(dist, T(hp, P)))
              w == RMul(2000, RMul(dist, T(wp, Q)))
          IN /\ RClose(RAdd(RMul(h, h), RMul(w, w)), RMul(diag, diag), "1/100000000", "1/100000000000")
             /\ RClose(RMul(h, wp), RMul(w, hp), "1/100000000", "1/100000000000")
=============================================================================
