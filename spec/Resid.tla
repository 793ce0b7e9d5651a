------------------------------- MODULE Resid --------------------------------
(***************************************************************************)
(* Residuals of the dots of a line from its least-squares straight line,   *)
(* and the verdict on distortion.  A line is a sequence of dots <<u, v>>   *)
(* in small integers: u along the line, v across it, both relative to the  *)
(* centre.                                                                 *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
Us(l) == [i \in 1..Len(l) |-> l[i][1]]
Vs(l) == [i \in 1..Len(l) |-> l[i][2]]
Suu(l) == LET n == Len(l) IN n * SumSeq([i \in 1..n |-> l[i][1] * l[i][1]]) - SumSeq(Us(l)) * SumSeq(Us(l))
Suv(l) == LET n == Len(l) IN n * SumSeq([i \in 1..n |-> l[i][1] * l[i][2]]) - SumSeq(Us(l)) * SumSeq(Vs(l))
\* signed residual of dot i along v, times Len(l) * Suu(l)
Off(l, i) == LET n == Len(l)  d == Suu(l)  m == Suv(l) IN
             n * (m * l[i][1] - d * l[i][2]) + (d * SumSeq(Vs(l)) - m * SumSeq(Us(l)))
Steep(l) == Abs(Suv(l)) >= 3 * Suu(l)
\* perpendicular distance of dot i, in units of 1/S
Dist(l, i) == IF Len(l) < 3 THEN 0
              ELSE LET t == FDiv(Suv(l), Suu(l)) IN FDiv(FDiv(Abs(Off(l, i)), Len(l) * Suu(l)) \div 32, FSqrt(S + FMul(t, t))) * 32
R2(p) == p[1]*p[1] + p[2]*p[2]
\* more than 15 % of the dots with a residual above one pixel
Distorted(big, n) == 100 * big > 15 * n
=============================================================================
