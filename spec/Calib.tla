------------------------------- MODULE Calib --------------------------------
(***************************************************************************)
(* Calibration of a radial distortion from a grid pattern.                 *)
(*                                                                         *)
(* The pattern is a regular grid: node (i,j), i in 0..nh-1, j in 0..nv-1,  *)
(* lies at  origin + (j - jc) * u + (i - ic) * v  with u = (p, t p),       *)
(* v = (-t p, p) (pitch p, tilt t).  The camera moves node q to where the  *)
(* backward model sends it.  Calibrating = finding the centre and a model  *)
(* which takes the observed nodes back to a regular grid.                  *)
(* g = [nh, nv, p, t, oy, ox] all lengths fixed point, t fixed point.      *)
(***************************************************************************)
EXTENDS Warp

Node(g, i, j) ==
  LET gx == (2*j - (g.nv - 1)) * (g.p \div 2)
      gy == (2*i - (g.nh - 1)) * (g.p \div 2)
  IN << g.oy + gy + FMul(g.t, gx), g.ox + gx - FMul(g.t, gy) >>

Observed(m, g) == [i \in 1..g.nh |-> [j \in 1..g.nv |->
                    LET q == Node(g, i-1, j-1) IN Through(m, q[1], q[2])]]

\* correct a point with a calibrated model: forward models are applied,
\* backward models are inverted
Corrected(m, dirn, q) == IF dirn = "forward" THEN Through(m, q[1], q[2]) ELSE InvPoint(m, q[1], q[2])

\* distance of q from the line through a and b (fixed point, lengths < 4 S)
OffLine(a, b, q) ==
  LET dy == b[1]-a[1]  dx == b[2]-a[2]
      cr == FMul(dx, q[1]-a[1]) - FMul(dy, q[2]-a[2])
  IN FDiv(cr, Radius(dx, dy))

Straight(line, tol) == \A n \in 2..(Len(line)-1) :
    Abs(OffLine(line[1], line[Len(line)], line[n])) <= tol
Dist(a, b) == Radius(b[2]-a[2], b[1]-a[1])
Even(line, tol) == \A n \in 1..(Len(line)-1) :
    Near(Dist(line[n], line[n+1]) * (Len(line) - 1), Dist(line[1], line[Len(line)]), tol * (Len(line)-1))
Col(L, j) == [i \in 1..Len(L) |-> L[i][j]]

(* Scale of the correction.  The intercept of a line is where it passes the *)
(* centre (quadratic interpolation of its three nodes nearest the centre);  *)
(* a = 1: y-intercept of a row (along x), a = 2: x-intercept of a column.   *)
Intercept(line, a, c) ==
  LET b == 3 - a
      n == Len(line)
      d(q) == Abs(line[q][b] - c[b])
      q == CHOOSE z \in 2..(n-1) : \A w \in 2..(n-1) : d(z) <= d(w)
      x1 == line[q-1][b]  x2 == line[q][b]  x3 == line[q+1][b]
      y1 == line[q-1][a]  y2 == line[q][a]  y3 == line[q+1][a]
      d12 == FDiv(y2 - y1, x2 - x1)
      d23 == FDiv(y3 - y2, x3 - x2)
      d123 == FDiv(d23 - d12, x3 - x1)
  IN y1 + FMul(c[b] - x1, d12) + FMul(FMul(c[b] - x1, c[b] - x2), d123) - c[a]
\* the line(s) nearest the centre: ties within tol are open
Middles(I, tol) == {q \in 1..Len(I) : \A w \in 1..Len(I) : Abs(I[q]) <= Abs(I[w]) + tol}
\* distance of the lines: the mean over up to num lines on either side of
\* the middle line m
MeanStep(I, m, num) ==
  LET lo == Max2(1, m - num)  hi == Min2(Len(I), m + num)
  IN SumSeq([q \in 1..(hi-lo) |-> Abs(I[lo+q] - I[lo+q-1])]) \div (hi - lo)
\* ... or the least-squares distance about it
LsqStep(I, m) ==
  LET up == IF I[Len(I)] > I[1] THEN 1 ELSE -1
      w(q) == q - m
  IN 4 * (SumSeq([q \in 1..Len(I) |-> up * w(q) * ((I[q] - I[m]) \div 4)]) \div SumSeq([q \in 1..Len(I) |-> w(q) * w(q)]))
=============================================================================
