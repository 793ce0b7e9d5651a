-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Regular grids and rectangles.  Points <<y,x>>, fixed point (Fix), unit  *)
(* length R pixels.  A grid G is a sequence of rows of points.             *)
(***************************************************************************)
EXTENDS Projective

Sub(a, b) == << a[1]-b[1], a[2]-b[2] >>
Add(a, b) == << a[1]+b[1], a[2]+b[2] >>
Mul(n, a) == << n*a[1], n*a[2] >>
Half(a) == << a[1] \div 2, a[2] \div 2 >>
Norm(a) == Radius(a[2], a[1])
Dot(a, b) == FMul(a[1], b[1]) + FMul(a[2], b[2])
SmallV(a, t) == Abs(a[1]) <= t /\ Abs(a[2]) <= t
\* a and b are perpendicular up to a displacement of t at the end of b
Perp(a, b, t) == Abs(Dot(a, b)) <= FMul(t, Norm(a)) + 8
GSane(G) == \A i \in 1..Len(G) : \A j \in 1..Len(G[i]) : SanePt(G[i][j])
Shape2(G, a, b) == Len(G) = a /\ \A i \in 1..Len(G) : Len(G[i]) = b
Transposed(G, H, t) == Shape2(H, Len(G[1]), Len(G)) /\ \A i \in 1..Len(G) : \A j \in 1..Len(G[1]) : NearPt(G[i][j], H[j][i], t)

\* all steps along rows equal ux, along columns uy, perpendicular, same hand
UX(G) == LET n == Len(G[1]) d == Sub(G[1][n], G[1][1]) IN << d[1] \div (n-1), d[2] \div (n-1) >>
UY(G) == LET n == Len(G) d == Sub(G[n][1], G[1][1]) IN << d[1] \div (n-1), d[2] \div (n-1) >>
Regular(G, t) ==
  LET ux == UX(G)  uy == UY(G) IN
  /\ \A i \in 1..Len(G) : \A j \in 1..Len(G[1]) :
        NearPt(G[i][j], Add(G[1][1], Add(Mul(j-1, ux), Mul(i-1, uy))), t + Len(G) + Len(G[1]))
  /\ Perp(ux, uy, t)
  /\ ux[2] > 0 /\ uy[1] > 0
PitchX(G) == Norm(UX(G))
PitchY(G) == Norm(UY(G))

\* four points <<tl, tr, bl, br>>
Rect(q, t) == SmallV(Sub(Sub(q[2], q[1]), Sub(q[4], q[3])), t) /\ Perp(Sub(q[2],q[1]), Sub(q[3],q[1]), t)
              /\ q[2][2] > q[1][2] /\ q[3][1] > q[1][1]
SideH(q, sc) == LET a == Norm(Sub(q[1],q[2]))  b == Norm(Sub(q[3],q[4])) IN
                CASE sc = "min" -> Min2(a,b) [] sc = "max" -> Max2(a,b) [] OTHER -> (a+b) \div 2
SideV(q, sc) == LET a == Norm(Sub(q[1],q[3]))  b == Norm(Sub(q[2],q[4])) IN
                CASE sc = "min" -> Min2(a,b) [] sc = "max" -> Max2(a,b) [] OTHER -> (a+b) \div 2
Comb(a, b, sc) == CASE sc = "min" -> Min2(a,b) [] sc = "max" -> Max2(a,b) [] OTHER -> (a+b) \div 2
\* sides asked for: sc in mean/min/max/factor, f the factor (fixed point)
WantH(q, sc, f, eq) == LET h == FMul(SideH(q, sc), IF sc = "factor" THEN f ELSE S)
                           v == FMul(SideV(q, sc), IF sc = "factor" THEN f ELSE S)
                       IN IF eq = 1 THEN Comb(h, v, sc) ELSE h
WantV(q, sc, f, eq) == LET h == FMul(SideH(q, sc), IF sc = "factor" THEN f ELSE S)
                           v == FMul(SideV(q, sc), IF sc = "factor" THEN f ELSE S)
                       IN IF eq = 1 THEN Comb(h, v, sc) ELSE v
Centroid(q) == Half(Half(Add(Add(q[1],q[2]), Add(q[3],q[4]))))
\* q lists tl, tr, bl, br of the given points
Ordered4(q) == /\ \A a \in {1,2} : \A b \in {3,4} : q[a][1] <= q[b][1]
               /\ q[1][2] < q[2][2] /\ q[3][2] < q[4][2]
SamePoints(q, g, t) == /\ Len(q) = Len(g)
                       /\ \A a \in 1..Len(q) : \E b \in 1..Len(g) : NearPt(q[a], g[b], t)
                       /\ \A b \in 1..Len(g) : \E a \in 1..Len(q) : NearPt(q[a], g[b], t)
Sort4(g) == CHOOSE q \in { <<g[a], g[b], g[c], g[d]>> : a, b, c, d \in 1..4 } :
              SamePoints(q, g, 0) /\ Ordered4(q)
=============================================================================
