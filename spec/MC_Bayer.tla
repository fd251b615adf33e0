------------------------------ MODULE MC_Bayer ------------------------------
(* A colour image is mosaicked and then moved between the one-channel and the *)
(* four-channel layout any number of times, sampled down, or demosaicked.     *)
(* Checked in every state: whatever the route, both layouts hold each sample  *)
(* of the mosaic exactly once and at its place; sampling down averages the two*)
(* greens of each cell; the four alignments are shifts of one another; every  *)
(* filter bank keeps constants; demosaicking keeps the measured samples and   *)
(* reproduces an achromatic ramp away from the border.                        *)
EXTENDS Bayer, Json, IOUtils, FiniteSets

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES sa, x,        \* alignment, colour image
          lay, t        \* layout of t: "rgb", "one", "four", "down", "full"
vars == <<sa, x, lay, t>>
ToSet(q) == {q[j] : j \in 1..Len(q)}
(* Distinct samples.                                                          *)
Image(l, hw) == [s |-> l \o <<3>> \o hw, d |-> [q \in 1..(3 * ProdSeq(l) * hw[1] * hw[2]) |-> q]]
Init == /\ sa \in Alignments
        /\ x \in {Image(l, hw) : l \in ToSet(Cfg.lead), hw \in ToSet(Cfg.sizes)}
        /\ lay = "rgb" /\ t = x
Case(op) == PrintT(<<"C", ToJson([op |-> op, sa |-> sa, s |-> t.s])>>)
Step(from, to, op, F(_)) == /\ lay = from /\ lay' = to /\ t' = F(t) /\ Case(op) /\ UNCHANGED <<sa, x>>
Big == Hh(x.s) >= 4 /\ Ww(x.s) >= 4
M(u) == Mosaic(u, sa)
MM(u) == OneToFour(Mosaic(u, sa))
D4(u) == DownFour(u, sa)
D1(u) == DownFour(OneToFour(u), sa)
DM(u) == Demosaic(u, sa, 1000000)
Next == \/ Step("rgb", "one", "rgb1", M)
        \/ Step("rgb", "four", "rgb4", MM)
        \/ Step("one", "four", "b14", OneToFour)
        \/ Step("four", "one", "b41", FourToOne)
        \/ Step("four", "down", "down4", D4)
        \/ Step("one", "down", "down1", D1)
        \/ (Big /\ Step("one", "full", "demosaic", DM))

-----------------------------------------------------------------------------
L == Lead(x.s)
H == Hh(x.s)
W == Ww(x.s)
Same(u, v) == u.s = v.s /\ RFirstBad(u.d, v.d, 0, 0) = 0
Outers == {Unflat(L, q - 1) : q \in 1..ProdSeq(L)}
(* The layouts do not depend on the route.                                    *)
Route == /\ lay = "one" => Same(t, Mosaic(x, sa))
         /\ lay = "four" => Same(t, OneToFour(Mosaic(x, sa)))
Places == \A l \in Outers, i \in 0..(H - 1), j \in 0..(W - 1) :
  LET v == At(x, l \o <<Colour(sa, i, j), i, j>>) IN
  /\ lay = "one" => REq(At(t, l \o <<0, i, j>>), v)
  /\ lay = "four" => REq(At(t, l \o <<2 * (i % 2) + (j % 2), i \div 2, j \div 2>>), v)
Once == lay \in {"one", "four"} =>
  /\ Len(t.d) = ProdSeq(L) * H * W
  /\ \A p, q \in 1..Len(t.d) : p # q => ~REq(t.d[p], t.d[q])
Halved == lay = "down" => \A l \in Outers, i \in 0..(H \div 2 - 1), j \in 0..(W \div 2 - 1), c \in 0..2 :
  LET S == {<<u, v>> \in {0, 1} \X {0, 1} : Colour(sa, u, v) = c}
      all == {At(x, l \o <<c, 2 * i + p[1], 2 * j + p[2]>>) : p \in S}
      mn == CHOOSE v \in all : \A w \in all : RLe(v, w)
      mx == CHOOSE v \in all : \A w \in all : RLe(w, v)
  IN /\ Cardinality(S) = (IF c = 1 THEN 2 ELSE 1)
     /\ REq(RMul(2, At(t, l \o <<c, i, j>>)), RAdd(mn, mx))
Kept == lay = "full" => Same(Mosaic(t, sa), Mosaic(x, sa))
-----------------------------------------------------------------------------
(* Facts about the cell and the filters, evaluated once.                      *)
Shift(u, di, dj) == [i \in 1..4 |-> Cell(u)[2 * (((i - 1) \div 2 + di) % 2) + ((((i - 1) % 2) + dj) % 2) + 1]]
Cells == /\ \A u \in Alignments : \A c \in {0, 2} : Cardinality({q \in 1..4 : Cell(u)[q] = c}) = 1
         /\ \A u \in Alignments, di, dj \in {0, 1} : \E v \in Alignments : Cell(v) = Shift(u, di, dj)
         /\ Cardinality({Cell(u) : u \in Alignments}) = 4
         /\ \A u \in Alignments : {SiteName(u, p[1], p[2]) : p \in {0, 1} \X {0, 1}} = {"R", "B", "GR", "GB"}
BanksConstant == \A site \in {"R", "B", "GR", "GB"}, o \in 1..2 : REq(RSum(GcBanks[site].w[o]), 1)
(* Filters are symmetric under reversal, so correlation is convolution.       *)
BanksSymmetric == \A site \in {"R", "B", "GR", "GB"}, o \in 1..2 :
                    LET w == GcBanks[site].w[o] IN \A q \in 1..25 : REq(w[q], w[26 - q])
(* An achromatic ramp a i + b j + c comes out unchanged two pixels inside.    *)
Ramp(h, w) == [s |-> <<1, h, w>>, d |-> [q \in 1..(h * w) |-> 5 * ((q - 1) \div w) + 3 * ((q - 1) % w) + 7]]
RampOk == (lay = "rgb" /\ L = <<>> /\ H = 6 /\ W = 6) =>
  LET r == Demosaic(Ramp(6, 6), sa, 1000)
  IN \A c \in 0..2, i, j \in 2..3 : REq(At(r, <<c, i, j>>), At(Ramp(6, 6), <<0, i, j>>))
Flat_ == (lay = "rgb" /\ L = <<>> /\ Big) =>
  LET r == Demosaic([s |-> <<1, H, W>>, d |-> [q \in 1..(H * W) |-> "7/3"]], sa, 1000)
  IN \A q \in 1..Len(r.d) : REq(r.d[q], "7/3")
Facts == lay = "rgb" => Cells /\ BanksConstant /\ BanksSymmetric
=============================================================================
