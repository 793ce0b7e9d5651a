------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* Calibration patterns: discs, dot, line and chessboard patterns.         *)
(* Everything in whole pixels; ratios in 1/64.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
MinP(a, b) == IF a < b THEN a ELSE b
MaxP(a, b) == IF a > b THEN a ELSE b
\* disc in a square of side n: pixel (y, x) with the given ratio of the half side
InDisc(n, r64, y, x) == LET c == n \div 2 IN
   64*64 * ((y - c) * (y - c) + (x - c) * (x - c)) <= (r64 * c) * (r64 * c)
\* offsets of the pixels of a dot from its centre
DotOffsets(n) == {<<y - n \div 2, x - n \div 2>> : y \in 0..n-1, x \in 0..n-1} 
Disc(n) == {d \in DotOffsets(n) : d[1]*d[1] + d[2]*d[2] <= (n \div 2) * (n \div 2)}
\* sizes are limited to an eighth of the shorter side, at least one
SizeUsed(h, w, s) == MaxP(MinP(s, MinP(h, w) \div 8), 1)
\* arithmetic sequence from a, step d, below b
Steps(a, b, d) == {v \in a..MaxP(a, b - 1) : v < b /\ (v - a) % d = 0}
Half(s) == s \div 2 + 1
DotRows(h, s, d, m) == Steps(m + Half(s), h - m - Half(s), d)
\* value at (y, x): 0 on a dot, 1 elsewhere; f = 1: dots of even size mirrored
OnDot(h, w, s, d, mv, mh, f, y, x) ==
   LET g == IF f = 1 THEN -1 ELSE 1
       In(q) == q >= -(s \div 2) /\ q <= s - 1 - s \div 2
   IN \E i \in DotRows(h, s, d, mv) : In(g * (y - i)) /\
         \E j \in DotRows(w, s, d, mh) : In(g * (x - j)) /\ (y-i)*(y-i) + (x-j)*(x-j) <= (s \div 2) * (s \div 2)
LineRows(h, s, d, m) == Steps(m, h - m - s, d)
LastOf(A) == CHOOSE v \in A : \A u \in A : u <= v
OnLine(h, w, s, d, mv, mh, y, x) ==
   LET I == LineRows(h, s, d, mv)  J == LineRows(w, s, d, mh) IN
   \/ /\ \E i \in I : y >= i /\ y < i + s
      /\ x >= mh /\ x < LastOf(J) + s
   \/ /\ \E j \in J : x >= j /\ x < j + s
      /\ y >= mv /\ y < LastOf(I) + s
Squares(h, s, m) == Steps(s + m, h - m - s, s)
\* value of a chessboard pixel: 2 margin, 1 white, 0 black
Chess(h, w, s, m, y, x) ==
   LET I == Squares(h, s, m)  J == Squares(w, s, m) IN
   IF \E i \in I, j \in J : y >= i /\ y < i + s /\ x >= j /\ x < j + s
   THEN (IF (((y - s - m) \div s) + ((x - s - m) \div s)) % 2 = 0 THEN 1 ELSE 0) ELSE 2
=============================================================================
