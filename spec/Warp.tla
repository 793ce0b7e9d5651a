-------------------------------- MODULE Warp --------------------------------
(***************************************************************************)
(* The radial distortion model and what an unwarped image is.              *)
(*                                                                         *)
(* Lengths are in units of R pixels (R a power of two), fixed point with   *)
(* unit S; U = S/R is one pixel.  A model m is                             *)
(*    [R, xc, yc, K]   K[i+1] = k_i * R^i                                  *)
(* so that the factor at radius r is K[1] + K[2] r + K[3] r^2 + ...        *)
(***************************************************************************)
EXTENDS Fix

U(m) == S \div m.R
Px(m, n) == n * U(m)

Radius(dx, dy) == FSqrt(FMul(dx,dx) + FMul(dy,dy))
Factor(m, dx, dy) == Poly(m.K, Radius(dx,dy))

\* where a point at (y,x) goes through the model: <<y', x'>>
Through(m, y, x) ==
  LET dx == x - m.xc  dy == y - m.yc  f == Factor(m,dx,dy)
  IN  << m.yc + FMul(f,dy), m.xc + FMul(f,dx) >>

\* source position of output pixel (i,j) of an h x w frame, clamped to it
Src(m, i, j, h, w) ==
  LET p == Through(m, Px(m,i), Px(m,j))
  IN  << Clamp(p[1], 0, Px(m,h-1)), Clamp(p[2], 0, Px(m,w-1)) >>

\* the model is a physical (monotone) radius map up to radius rmax
RadMap(m, r) == FMul(r, Poly(m.K, r))
Monotone(m, rmax, n) ==
  \A t \in 0..(n-1) :
     RadMap(m, (rmax \div n) * t) < RadMap(m, (rmax \div n) * (t+1))

\* inversion of the radius map by bisection (physical models)
RECURSIVE InvBis(_,_,_,_,_)
InvBis(m, rd, lo, hi, n) == IF n = 0 THEN lo ELSE
   LET c == (lo + hi) \div 2 IN
   IF RadMap(m, c) <= rd THEN InvBis(m, rd, c, hi, n-1) ELSE InvBis(m, rd, lo, c, n-1)
\* the point that the backward model sends to (y,x)
InvPoint(m, y, x) ==
  LET dx == x - m.xc  dy == y - m.yc  rd == Radius(dx,dy)
      ru == InvBis(m, rd, 0, 2*S, 27)
  IN IF rd < 64 THEN <<y, x>>
     ELSE << m.yc + FMul(FDiv(ru, rd), dy), m.xc + FMul(FDiv(ru, rd), dx) >>

----------------------------------------------------------------------------
(* Sampling.  f14 is a fraction in 1/16384ths; values are integers, results *)
(* are in 1/1024ths.                                                        *)
W14 == 16384
Frac14(m, q) == LET u == U(m) IN
   IF u >= W14 THEN (q % u) \div (u \div W14) ELSE (q % u) * (W14 \div u)
Cell(m, q) == q \div U(m)

Lin(a, b, f) == a * (W14 - f) + b * f                    \* x 16384

\* V(i,j): integer pixel value at row i, column j
Bilinear(m, V(_,_), p, h, w) ==
  LET i0 == Cell(m,p[1])  j0 == Cell(m,p[2])
      i1 == Min2(i0+1, h-1)  j1 == Min2(j0+1, w-1)
      fy == Frac14(m,p[1])  fx == Frac14(m,p[2])
      top == Lin(V(i0,j0), V(i0,j1), fx) \div 16
      bot == Lin(V(i1,j0), V(i1,j1), fx) \div 16
  IN top + ((bot - top) * (fy \div 2)) \div 8192            \* x 1024

\* the set of pixels nearest to p; slack (in length units) at the ties
NearIdx(m, q, n, slack) ==
  { i \in {Cell(m,q), Cell(m,q)+1} \cap (0..(n-1)) :
       Abs(Px(m,i) - q) <= U(m) \div 2 + slack }
NearestVals(m, V(_,_), p, h, w, slack) ==
  { V(i,j) : i \in NearIdx(m,p[1],h,slack), j \in NearIdx(m,p[2],w,slack) }

----------------------------------------------------------------------------
(* Test images, as functions of the pixel index, so that any pixel of an    *)
(* image of any size can be evaluated.                                      *)
Tri(a) == Abs((a % 400) - 200)
ImgVal(kind, c, i, j) ==
  IF kind = 0 THEN (7*i + 13*j + 5*((i*j) % 101) + 17*c) % 101
  ELSE IF kind = 1 THEN Tri(2*i + 3*j + 31*c)
  ELSE IF kind = 2 THEN i*i + i*j + 2*j*j + c
  ELSE IF kind = 4 THEN 100 + 100 * (Abs((j % 4) - 2) - 1)
  ELSE IF kind = 5 THEN 100 + 100 * (Abs((i % 4) - 2) - 1)
  ELSE 40 + c

\* The wave 100 + 100 cos(pi x/2) interpolated half way between its pixels by
\* the spline of each order (ratio of the B-spline sums at half and whole
\* pixels): 100 +- WaveHalf/1024.
WaveHalf(order) == CASE order = 2 -> 68267 [] order = 3 -> 70400 [] order = 4 -> 71860 [] OTHER -> 72200

\* v is a bilinear sample within d of p.  The interpolation is multilinear in
\* every cell, so its extremes over the square of half width d are taken at
\* the corners of the square, or on a pixel line which crosses it.
NearCuts(m, q, n, d) ==
  { Clamp(q - d, 0, Px(m,n-1)), Clamp(q + d, 0, Px(m,n-1)) }
  \cup { Px(m,i) : i \in { x \in {Cell(m,q), Cell(m,q)+1} \cap (0..(n-1)) : Near(Px(m,x), q, d) } }
BilinearWithin(m, V(_,_), p, h, w, d, v, tol) ==
  \/ Near(v, Bilinear(m, V, p, h, w), tol)
  \/ LET vs == { Bilinear(m, V, <<y, x>>, h, w) : y \in NearCuts(m, p[1], h, d), x \in NearCuts(m, p[2], w, d) }
     IN MinOf(vs) - tol <= v /\ v <= MaxOf(vs) + tol
=============================================================================
