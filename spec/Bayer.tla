------------------------------- MODULE Bayer -------------------------------
(* Colour filter arrays.  A site is a position (r, c) of the 2x2 cell.        *)
EXTENDS Tensor

Alignments == {"RGGB", "BGGR", "GRBG", "GBRG"}
Cell(sa) ==   \* colours of the cell in row-major order: 0 R, 1 G, 2 B
  CASE sa = "RGGB" -> <<0, 1, 1, 2>>
    [] sa = "BGGR" -> <<2, 1, 1, 0>>
    [] sa = "GRBG" -> <<1, 0, 2, 1>>
    [] sa = "GBRG" -> <<1, 2, 0, 1>>
Colour(sa, i, j) == Cell(sa)[2 * (i % 2) + (j % 2) + 1]
SiteName(sa, i, j) ==   \* R, B, or green in the red / blue row
  LET c == Colour(sa, i, j)
  IN IF c = 0 THEN "R" ELSE IF c = 2 THEN "B"
     ELSE IF Colour(sa, i, j + 1) = 0 THEN "GR" ELSE "GB"

Lead(s) == SubSeq(s, 1, Len(s) - 3)
Ch(s) == s[Len(s) - 2]
Hh(s) == s[Len(s) - 1]
Ww(s) == s[Len(s)]
(* Index helpers: an index split as leading part, channel, row, column.       *)
IxL(ix) == SubSeq(ix, 1, Len(ix) - 3)
IxC(ix) == ix[Len(ix) - 2]
IxI(ix) == ix[Len(ix) - 1]
IxJ(ix) == ix[Len(ix)]

Image3(s) == Len(s) >= 3
OneOk(s)  == Image3(s) /\ Ch(s) = 1 /\ Hh(s) % 2 = 0 /\ Ww(s) % 2 = 0
FourOk(s) == Image3(s) /\ Ch(s) = 4
RgbOk(s)  == Image3(s) /\ Ch(s) = 3 /\ Hh(s) % 2 = 0 /\ Ww(s) % 2 = 0

OneToFour(x) ==
  LET s == x.s
      F(ix) == At(x, IxL(ix) \o <<0, 2 * IxI(ix) + IxC(ix) \div 2, 2 * IxJ(ix) + (IxC(ix) % 2)>>)
  IN Build(Lead(s) \o <<4, Hh(s) \div 2, Ww(s) \div 2>>, F)
FourToOne(x) ==
  LET s == x.s
      F(ix) == At(x, IxL(ix) \o <<2 * (IxI(ix) % 2) + (IxJ(ix) % 2), IxI(ix) \div 2, IxJ(ix) \div 2>>)
  IN Build(Lead(s) \o <<1, 2 * Hh(s), 2 * Ww(s)>>, F)
Mosaic(x, sa) ==
  LET F(ix) == At(x, IxL(ix) \o <<Colour(sa, IxI(ix), IxJ(ix)), IxI(ix), IxJ(ix)>>)
  IN Build(Lead(x.s) \o <<1, Hh(x.s), Ww(x.s)>>, F)
DownFour(x, sa) ==
  LET cell == Cell(sa)
      V(ix, q) == At(x, IxL(ix) \o <<q - 1, IxI(ix), IxJ(ix)>>)
      F(ix) == LET col == IxC(ix)
                   S == {q \in 1..4 : cell[q] = col}
                   lo == CHOOSE q \in S : \A p \in S : q <= p
                   hi == CHOOSE q \in S : \A p \in S : q >= p
               IN RDiv(RAdd(V(ix, lo), V(ix, hi)), 2)
  IN Build(Lead(x.s) \o <<3, Hh(x.s), Ww(x.s)>>, F)

-----------------------------------------------------------------------------
(* Convolution with one filter bank per site.  banks: site name -> [w: o x i x*)
(* k x k nested sequences, b: o]; rows/columns outside are mirrored about the *)
(* edge samples.                                                              *)
Mirror(i, n) == IF i < 0 THEN -i ELSE IF i >= n THEN 2 * (n - 1) - i ELSE i
BayerConv(x, sa, banks, k, oc) ==
  LET s == x.s  off == k \div 2  H == Hh(s)  W == Ww(s)  C == Ch(s)
      Val(ix) ==
        LET bank == banks[SiteName(sa, IxI(ix), IxJ(ix))]
            o == IxC(ix) + 1
            patch == [q \in 1..(C * k * k) |->
               LET c == (q - 1) \div (k * k)
                   u == ((q - 1) \div k) % k
                   v == (q - 1) % k
               IN At(x, IxL(ix) \o <<c, Mirror(IxI(ix) - off + u, H), Mirror(IxJ(ix) - off + v, W)>>)]
        IN RAdd(bank.b[o], RDot(patch, bank.w[o]))
  IN Build(Lead(s) \o <<oc, H, W>>, Val)
(* Factor-2 pixel-unshuffle.                                                  *)
Unshuffle(y) ==
  LET s == y.s
      F(ix) == At(y, IxL(ix) \o <<IxC(ix) \div 4, 2 * IxI(ix) + ((IxC(ix) % 4) \div 2), 2 * IxJ(ix) + (IxC(ix) % 2)>>)
  IN Build(Lead(s) \o <<4 * Ch(s), Hh(s) \div 2, Ww(s) \div 2>>, F)

(* The two missing colours at a site, in R, G, B order.                       *)
Missing(c) == CASE c = 0 -> <<1, 2>> [] c = 1 -> <<0, 2>> [] c = 2 -> <<0, 1>>
Merge3(x, y, sa) ==
  LET F(ix) ==
        LET c == Colour(sa, IxI(ix), IxJ(ix)) ch == IxC(ix) m == Missing(c)
        IN IF ch = c THEN At(x, IxL(ix) \o <<0, IxI(ix), IxJ(ix)>>)
           ELSE At(y, IxL(ix) \o <<IF m[1] = ch THEN 0 ELSE 1, IxI(ix), IxJ(ix)>>)
  IN Build(Lead(x.s) \o <<3, Hh(x.s), Ww(x.s)>>, F)

(* Gradient-corrected filters (times 16 to stay integral).                    *)
GreenAtRB == << 0,0,-2,0,0,  0,0,4,0,0,  -2,4,8,4,-2,  0,0,4,0,0,  0,0,-2,0,0 >>
RowNbr    == << 0,0,1,0,0,  0,-2,0,-2,0,  -2,8,10,8,-2,  0,-2,0,-2,0,  0,0,1,0,0 >>   \* wanted colour beside, in the row
ColNbr    == << 0,0,-2,0,0,  0,-2,8,-2,0,  1,0,10,0,1,  0,-2,8,-2,0,  0,0,-2,0,0 >>   \* wanted colour above and below
Diagonal  == << 0,0,-3,0,0,  0,4,0,4,0,  -3,0,12,0,-3,  0,4,0,4,0,  0,0,-3,0,0 >>
Over16(w) == [i \in 1..25 |-> RDiv(w[i], 16)]
FilterFor(site, col) ==
  CASE col = 1 -> GreenAtRB
    [] site = "GR" -> IF col = 0 THEN RowNbr ELSE ColNbr
    [] site = "GB" -> IF col = 2 THEN RowNbr ELSE ColNbr
    [] OTHER -> Diagonal
SiteColour(site) == CASE site = "R" -> 0 [] site = "B" -> 2 [] OTHER -> 1
GcBanks == [site \in {"R", "B", "GR", "GB"} |->
   LET m == Missing(SiteColour(site))
   IN [w |-> <<Over16(FilterFor(site, m[1])), Over16(FilterFor(site, m[2]))>>, b |-> <<0, 0>>]]
ClampTo(v, hi) == IF RLt(v, 0) THEN 0 ELSE IF RLt(hi, v) THEN hi ELSE v
Demosaic(x, sa, hi) ==
  LET y == BayerConv(x, sa, GcBanks, 5, 2)
      F(v) == ClampTo(v, hi)
  IN Map1(Merge3(x, y, sa), F)
=============================================================================
