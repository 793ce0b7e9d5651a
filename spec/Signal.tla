------------------------------- MODULE Signal -------------------------------
(***************************************************************************)
(* One-dimensional profiles: sub-pixel position of an extremum, slopes in  *)
(* a sliding window, local extrema.  A signal is a sequence of integers;   *)
(* positions count from 0.                                                 *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
At(y, i) == y[i + 1]
Clamped(y, i) == y[Clamp(i, 0, Len(y) - 1) + 1]
RECURSIVE SumTo(_,_)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(f) == SumTo(f, Len(f))

(* ---- sliding slope: window 2r+1, edge values repeated ------------------ *)
WinSize(size, n) == LET c == Clamp(size, 3, n) IN IF c % 2 = 0 THEN c + 1 ELSE c
\* least-squares slope = SlopeNum / SlopeDen
SlopeNum(y, i, r) == Total([z \in 1..(2*r+1) |-> (z - 1 - r) * Clamped(y, i + z - 1 - r)])
SlopeDen(r) == 2 * Total([z \in 1..r |-> z * z])

(* ---- parabola through equidistant values: vertex at x = -B/(2A) -------- *)
\* with t = 2x - (n-1):  A ~ CurvNum, t-vertex = -LinNum*K5 / (10*CurvNum)
TPos(n, z) == 2 * (z - 1) - (n - 1)
S2(n) == Total([z \in 1..n |-> TPos(n, z) * TPos(n, z)])
S4(n) == Total([z \in 1..n |-> TPos(n, z) * TPos(n, z) * TPos(n, z) * TPos(n, z)])
K5(n) == (5 * (n * S4(n) - S2(n) * S2(n))) \div S2(n)
LinNum(y) == Total([z \in 1..Len(y) |-> TPos(Len(y), z) * y[z]])
CurvNum(y) == LET n == Len(y) IN
   n * Total([z \in 1..n |-> TPos(n, z) * TPos(n, z) * y[z]]) - S2(n) * Total(y)
Best(y, opt) == IF opt = "min" THEN MinOf({y[i] : i \in 1..Len(y)}) ELSE MaxOf({y[i] : i \in 1..Len(y)})
\* is a position p (in 1/q) an admissible sub-pixel extremum of y?
SubPixOK(y, opt, p, q, tol) ==
   LET n == Len(y)  A == CurvNum(y)  B == LinNum(y)
       num == -B * K5(n)  den == 10 * A                       \* t-vertex
       \* x-vertex = (num/den + n-1)/2, compared in units of 1/q
       Vert == IF den = 0 THEN FALSE
               ELSE Abs(2*p*den - q*num - q*(n-1)*den) <= 2 * tol * Abs(den)
       lo == num + (n-1) * den    \* den * 2x
       inside == IF den > 0 THEN lo >= 0 /\ lo < 2*n*den ELSE IF den < 0 THEN lo <= 0 /\ lo > 2*n*den ELSE FALSE
       edge == den # 0 /\ (lo = 0 \/ lo = 2*n*den)
       kind == IF opt = "min" THEN A > 0 ELSE A < 0
       node == \E i \in 0..n-1 : p = i * q /\ y[i+1] = Best(y, opt)
   IN IF A = 0 /\ B = 0 THEN p >= 0 /\ p < n * q + tol
      ELSE IF edge THEN Vert \/ node
      ELSE IF kind /\ inside THEN Vert ELSE node

(* ---- local extrema ----------------------------------------------------- *)
Flipped(y) == LET m == Best(y, "max") IN [i \in 1..Len(y) |-> m - y[i]]
Radius(r, n) == Clamp(r, 1, n \div 4)
Window(y, i, r) == [z \in 1..(2*r+1) |-> y[i - r + z]]
RECURSIVE Ins(_,_)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF x >= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(x, Tail(s))
RECURSIVE Desc(_)
Desc(s) == IF s = <<>> THEN <<>> ELSE Ins(s[1], Desc(Tail(s)))
TopSum(y, i, r) == SumTo(Desc(Window(y, i, r)), r)
\* contrast to the mean of the r largest values of the window, against sens/64
Contrast2(y, i, r, sens) ==
   LET t == TopSum(y, i, r)  a == 64 * Abs(y[i+1] * r - t)  b == sens * Abs(t)
   IN IF t = 0 THEN "no" ELSE IF a > b THEN "yes" ELSE IF a = b THEN "even" ELSE "no"
IsLow(y, i, r) == \A z \in 1..(2*r+1) : y[i + 1] <= y[i - r + z]
MinAt(y, i, r, sens) == IF IsLow(y, i, r) THEN Contrast2(y, i, r, sens) ELSE "no"
Usable(y, opt) == IF opt = "max" THEN Flipped(y) ELSE y
Must(y, opt, r0, sens) == LET r == Radius(r0, Len(y)) u == Usable(y, opt) IN
   IF Len(y) < 4 THEN {} ELSE {i \in r..(Len(y)-1-r) : MinAt(u, i, r, sens) = "yes"}
May(y, opt, r0, sens) == LET r == Radius(r0, Len(y)) u == Usable(y, opt) IN
   IF Len(y) < 4 THEN {} ELSE {i \in r..(Len(y)-1-r) : MinAt(u, i, r, sens) # "no"}
=============================================================================
