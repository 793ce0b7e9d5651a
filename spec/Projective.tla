----------------------------- MODULE Projective -----------------------------
(***************************************************************************)
(* Perspective maps with eight coefficients.  Lengths in units of R pixels *)
(* (fixed point, see Fix); the coefficients are normalised accordingly     *)
(* (c3, c6 divided by R, c7, c8 multiplied by R):                          *)
(*    x' = (c1 x + c2 y + c3) / (c7 x + c8 y + 1)                          *)
(*    y' = (c4 x + c5 y + c6) / (c7 x + c8 y + 1)                          *)
(* Points are <<y, x>>.                                                    *)
(***************************************************************************)
EXTENDS Warp

SaneC(c) == Len(c) = 8 /\ \A i \in 1..8 : Abs(c[i]) < 16*S
Den(c, p) == S + FMul(c[7], p[2]) + FMul(c[8], p[1])
\* the map is defined (and far from its horizon) at p
Defined(c, p) == Den(c, p) > S \div 8
Proj(c, p) ==
  LET d == Den(c, p)
      nx == FMul(c[1], p[2]) + FMul(c[2], p[1]) + c[3]
      ny == FMul(c[4], p[2]) + FMul(c[5], p[1]) + c[6]
  IN << FDiv(ny, d), FDiv(nx, d) >>

\* the inverse map (adjugate, normalised so that the last entry is 1)
InverseC(c) ==
  LET m33 == FMul(c[1],c[5]) - FMul(c[2],c[4])
      a(v) == FDiv(v, m33)
  IN << a(c[5] - FMul(c[6],c[8])), a(FMul(c[3],c[8]) - c[2]), a(FMul(c[2],c[6]) - FMul(c[3],c[5])),
        a(FMul(c[6],c[7]) - c[4]), a(c[1] - FMul(c[3],c[7])), a(FMul(c[3],c[4]) - FMul(c[1],c[6])),
        a(FMul(c[4],c[8]) - FMul(c[5],c[7])), a(FMul(c[2],c[7]) - FMul(c[1],c[8])) >>

NearPt(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
SanePt(p) == Abs(p[1]) < 6*S /\ Abs(p[2]) < 6*S
\* source position of output pixel (i,j), clamped to the h x w frame
PSrc(m, c, i, j, h, w) ==
  LET q == Proj(c, << Px(m,i), Px(m,j) >>)
  IN << Clamp(q[1], 0, Px(m,h-1)), Clamp(q[2], 0, Px(m,w-1)) >>
=============================================================================
