------------------------------- MODULE T_Grid -------------------------------
(***************************************************************************)
(* Trace specification: recorded calls that build or repair grids.         *)
(*  "four"   rectangle for four points       "und"  regular grid for lines *)
(*  "st"     source/target pairs             "scales" spacing options      *)
(*  "cross"  crossings of straight lines     "pcross" of parabolas         *)
(*  "same"   a grid that must come back unchanged (up to e.tol1000 px)     *)
(*  "persp"  perspective effect removed      "shift" points translated     *)
(*  "mirror" corrected mirror image          "zoom"  scale of a correction *)
(*  "square" non-square cells made square    "gap" an irregular distance   *)
(*  "reject" a refused call                                                *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
u(e) == S \div e.R
T(e) == 32 + u(e) \div 40

FourOK(e) ==
  IF Len(e.src) # 4 \/ Len(e.tgt) # 4 \/ ~GSane(<<e.tgt>>) THEN "structure"
  ELSE IF ~SamePoints(e.src, e.given, T(e)) \/ ~Ordered4(e.src) THEN "source-order"
  ELSE IF ~Rect(e.tgt, T(e)) THEN "not-rectangle"
  ELSE IF ~Near(Norm(Sub(e.tgt[2],e.tgt[1])), WantH(e.src, e.sc, e.f, e.eq), T(e)) THEN "side-h"
  ELSE IF ~Near(Norm(Sub(e.tgt[3],e.tgt[1])), WantV(e.src, e.sc, e.f, e.eq), T(e)) THEN "side-v"
  ELSE IF Rect(e.src, T(e) \div 8) THEN
     (IF e.sc # "factor" /\ e.eq = 0 /\ \E a \in 1..4 : ~NearPt(e.tgt[a], e.src[a], 2*T(e)) THEN "rectangle-moved"
      ELSE IF ~NearPt(Centroid(e.tgt), Centroid(e.src), 2*T(e)) THEN "centre-moved"
      ELSE IF Abs(Dot(Sub(e.tgt[2],e.tgt[1]), Sub(e.src[3],e.src[1]))) > FMul(2*T(e), S) THEN "rotated"
      ELSE "ok")
  ELSE "ok"

\* targets of a grid: G given, H computed (rows), V its transpose
UndOK(e) ==
  IF ~Shape2(e.H, Len(e.G), Len(e.G[1])) \/ ~GSane(e.H) \/ ~GSane(e.V) \/ ~Transposed(e.H, e.V, T(e)) THEN "structure"
  ELSE IF ~Regular(e.H, T(e)) THEN "not-regular"
  ELSE IF e.eq = 1 /\ ~Near(PitchX(e.H), PitchY(e.H), T(e)) THEN "not-equidistant"
  ELSE IF Regular(e.G, T(e) \div 8) THEN
     LET px == PitchX(e.G)  py == PitchY(e.G)  f == IF e.sc = "factor" /\ e.opt = 0 THEN e.f ELSE S
         wx == FMul(f, IF e.eq = 1 THEN Comb(px, py, e.sc) ELSE px)
         wy == FMul(f, IF e.eq = 1 THEN Comb(px, py, e.sc) ELSE py)
         ci == (Len(e.G) \div 2) + 1  cj == (Len(e.G[1]) \div 2) + 1
     IN IF ~Near(PitchX(e.H), wx, T(e)) \/ ~Near(PitchY(e.H), wy, T(e)) THEN "spacing"
        ELSE IF ~NearPt(e.H[ci][cj], e.G[ci][cj], 2*T(e)) THEN "moved"
        ELSE IF Abs(Dot(UX(e.H), UY(e.G))) > FMul(T(e), S) THEN "rotated"
        ELSE "ok"
  ELSE "ok"

\* the optimised distance between parallel lines (rows at y, columns at x,
\* aligned with the axes) is the least-squares distance about the middle line
RECURSIVE SumI(_,_,_)
SumI(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumI(F, a+1, b)
LSQ(P(_), n) == LET c == (n \div 2) + 1
                    A(i) == (i - c) * ((P(i) - P(c)) \div 64)
                    Q(i) == (i - c) * (i - c)
                IN (SumI(A, 1, n) \div SumI(Q, 1, n)) * 64
OptOK(e) == LET nh == Len(e.G)  nv == Len(e.G[1])  Y(i) == e.G[i][1][1]  X(j) == e.G[1][j][2] IN
  GSane(e.H) /\ Near(PitchY(e.H), LSQ(Y, nh), T(e)) /\ Near(PitchX(e.H), LSQ(X, nv), T(e))

Rows(s, nh, nv) == [i \in 1..nh |-> [j \in 1..nv |-> s[(i-1)*nv + j]]]
StOK(e) ==
  LET nh == Len(e.G)  nv == Len(e.G[1]) IN
  IF Len(e.src) # nh*nv \/ Len(e.tgt) # nh*nv \/ ~GSane(<<e.tgt>>) \/ ~GSane(<<e.src>>) THEN "structure"
  ELSE LET Sg == Rows(e.src, nh, nv)  Tg == Rows(e.tgt, nh, nv) IN
     IF \E i \in 1..nh : \E j \in 1..nv : ~NearPt(Sg[i][j], e.G[i][j], 2*T(e)) THEN "source-points"
     ELSE UndOK([e EXCEPT !.H = Tg, !.V = [j \in 1..nv |-> [i \in 1..nh |-> Tg[i][j]]]])

\* e.Gs: results for min, median, mean, max, factor (not optimised, not equal)
ScalesOK(e) ==
  LET x(a) == PitchX(e.Gs[a])  y(a) == PitchY(e.Gs[a]) t == T(e) IN
  /\ x(1) <= x(2) + t /\ x(2) <= x(4) + t /\ x(1) <= x(3) + t /\ x(3) <= x(4) + t
  /\ y(1) <= y(2) + t /\ y(2) <= y(4) + t /\ y(1) <= y(3) + t /\ y(3) <= y(4) + t
  /\ Near(x(5), FMul(e.f, x(3)), 2*t) /\ Near(y(5), FMul(e.f, y(3)), 2*t)

\* h[i] = <<a, b>>: y = a x + b;  v[j] = <<c, d>>: x = c y + d
CrossOK(e) ==
  IF ~Shape2(e.H, Len(e.h), Len(e.v)) \/ ~GSane(e.H) \/ ~GSane(e.V) \/ ~Transposed(e.H, e.V, 2) THEN "structure"
  ELSE IF \A i \in 1..Len(e.h) : \A j \in 1..Len(e.v) : LET p == e.H[i][j] IN
       /\ Near(p[1], Poly(e.h[i], p[2]), 24 + u(e) \div 1000) /\ Near(p[2], Poly(e.v[j], p[1]), 24 + u(e) \div 1000)
  THEN "ok" ELSE "not-the-crossing"

SameG(e) == Shape2(e.H, Len(e.G), Len(e.G[1])) /\ GSane(e.H) /\ GSane(e.V) /\ Transposed(e.H, e.V, 2)
            /\ \A i \in 1..Len(e.G) : \A j \in 1..Len(e.G[1]) : NearPt(e.H[i][j], e.G[i][j], (u(e) * e.tol1000) \div 1000)

Corners4(G) == << G[1][1], G[1][Len(G[1])], G[Len(G)][1], G[Len(G)][Len(G[1])] >>
\* how far the corners are from a rectangle
Defect(q) == Norm(Sub(Sub(q[2],q[1]), Sub(q[4],q[3])))
Tip(q) == LET a == Sub(q[2],q[1]) IN FDiv(Abs(Dot(a, Sub(q[3],q[1]))), Norm(a))
PerspOK(e) ==
  IF ~Shape2(e.H, Len(e.G), Len(e.G[1])) \/ ~GSane(e.H) \/ ~GSane(e.V) \/ ~Transposed(e.H, e.V, 4) THEN "structure"
  ELSE LET a == Corners4(e.G)  b == Corners4(e.H) IN
     IF Defect(b) > Max2((7*u(e)) \div 2, Defect(a) \div 3) \/ Tip(b) > Max2((7*u(e)) \div 2, Defect(a) \div 3) THEN "perspective-left"
     ELSE "ok"
\* e.B: the result for the mirrored grid, mirrored back
AgreeOK(e) == GSane(e.A) /\ GSane(e.B) /\ Shape2(e.B, Len(e.A), Len(e.A[1])) /\
   \A i \in 1..Len(e.A) : \A j \in 1..Len(e.A[1]) : NearPt(e.A[i][j], e.B[i][j], (u(e) * e.tol1000) \div 1000)
\* e.A for scale "mean", e.B for the factor f; min, max
ZoomOK(e) == GSane(e.A) /\ GSane(e.B) /\ GSane(e.Lo) /\ GSane(e.Hi) /\
  LET D(G) == LET q == Corners4(G) IN << Norm(Sub(q[1],q[2])), Norm(Sub(q[1],q[3])) >>
      a == D(e.A)  b == D(e.B)  lo == D(e.Lo)  hi == D(e.Hi)  t == u(e) \div 5
  IN /\ Near(b[1], FMul(e.f, a[1]), t) /\ Near(b[2], FMul(e.f, a[2]), t)
     /\ lo[1] <= a[1] + t /\ a[1] <= hi[1] + t /\ lo[2] <= a[2] + t /\ a[2] <= hi[2] + t
ShiftOK(e) == Len(e.res) = Len(e.lines) /\ \A l \in 1..Len(e.lines) : Len(e.res[l]) = Len(e.lines[l]) /\
   \A p \in 1..Len(e.lines[l]) : NearPt(e.res[l][p], Add(e.lines[l][p], e.d), IF e.R = 16 THEN 1 ELSE 3 + u(e) \div 2000)

\* a grid with cells that are not square, seen in perspective: corrected, its
\* cells are square near the centre, of the larger of the two sides
SidesAt(G, c) ==
  LET nh == Len(G)  nv == Len(G[1])
      D(i, j) == Norm(Sub(G[i][j], c))
      m == CHOOSE z \in (3..(nh-2)) \X (3..(nv-2)) : \A w \in (3..(nh-2)) \X (3..(nv-2)) : D(z[1], z[2]) <= D(w[1], w[2])
  IN << Norm(Sub(G[m[1]+2][m[2]], G[m[1]-2][m[2]])), Norm(Sub(G[m[1]][m[2]+2], G[m[1]][m[2]-2])) >>
SquareOK(e) ==
  Shape2(e.H, Len(e.G), Len(e.G[1])) /\ GSane(e.H) /\ GSane(e.V) /\ Transposed(e.H, e.V, 4) /\
  LET a == SidesAt(e.G, << e.yc, e.xc >>)  b == SidesAt(e.H, << e.yc, e.xc >>)
      M2 == Max2(a[1], a[2])
  IN Near(b[1], b[2], M2 \div 32) /\ Near(Max2(b[1], b[2]), M2, M2 \div 40)

\* parallel rows (columns) at equal distances, except for one gap next to the
\* middle line: the statistics of the distances are known, the mean up to the
\* number of lines it is taken over
GapDists(sc, d, g, n) ==
  CASE sc = "median" -> {d} [] sc = "min" -> {Min2(d, g)} [] sc = "max" -> {Max2(d, g)}
    [] OTHER -> { d + (g - d) \div q : q \in 2..n }
GapOK(e) ==
  Shape2(e.H, Len(e.G), Len(e.G[1])) /\ GSane(e.H) /\ Regular(e.H, T(e)) /\
  \E a \in GapDists(e.sc, e.dy, e.gy, Len(e.G)), b \in GapDists(e.sc, e.dx, e.gx, Len(e.G[1])) :
     LET A == IF e.eq = 1 THEN Comb(a, b, e.sc) ELSE a
         C == IF e.eq = 1 THEN Comb(a, b, e.sc) ELSE b
     IN Near(PitchY(e.H), A, T(e)) /\ Near(PitchX(e.H), C, T(e))

B(x, name) == IF x THEN "ok" ELSE name
NSteps(e) == 1
Clause(e, n) ==
  IF e.op = "reject" THEN B(e.out = "raise:ValueError", "not-rejected")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE CASE e.op = "four" -> FourOK(e)
         [] e.op = "und" -> UndOK(e)
         [] e.op = "opt" -> B(OptOK(e), "optimised-distance")
         [] e.op = "st" -> StOK(e)
         [] e.op = "scales" -> B(ScalesOK(e), "scales")
         [] e.op = "cross" -> CrossOK(e)
         [] e.op = "pcross" -> CrossOK(e)
         [] e.op = "same" -> B(SameG(e), "changed-" \o e.what)
         [] e.op = "persp" -> PerspOK(e)
         [] e.op = "square" -> B(SquareOK(e), "not-square")
         [] e.op = "gap" -> B(GapOK(e), "gap-" \o e.sc)
         [] e.op = "agree" -> B(AgreeOK(e), "presentation-" \o e.what)
         [] e.op = "zoom" -> B(ZoomOK(e), "zoom")
         [] e.op = "shift" -> B(ShiftOK(e), "shift")
         [] OTHER -> "unknown-op"
INSTANCE TraceBase
=============================================================================
