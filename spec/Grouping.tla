------------------------------ MODULE Grouping ------------------------------
(***************************************************************************)
(* Grouping of dots into lines.  A dot is <<y, x>> in units of 1/256 px.   *)
(* Lines run along x; for vertical lines the coordinates are exchanged     *)
(* first.  g = [s, d, w, m]: slope (times S), distance between dots and    *)
(* admitted offset (1/256 px; w is perpendicular to the line), number of   *)
(* dots that may be missing.                                               *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
Root(s) == FSqrt(S + FMul(s, s))
\* height of q over the line of slope s through p, times sqrt(1+s^2) / 1
Off(p, q, s) == Abs(FMul(s, q[2] - p[2]) - (q[1] - p[1]))
OnLine(p, q, g) == /\ Abs(q[2] - p[2]) < g.m * g.d
                   /\ Off(p, q, g.s) < FMul(g.w, Root(g.s))
\* the dots (indices) of L ordered by x, as a sequence
RECURSIVE InsX(_,_,_)
InsX(P, seq, i) == IF seq = <<>> THEN <<i>>
   ELSE IF P[i][2] < P[Head(seq)][2] THEN <<i>> \o seq ELSE <<Head(seq)>> \o InsX(P, Tail(seq), i)
RECURSIVE SortX(_,_)
SortX(P, n) == IF n = 0 THEN <<>> ELSE InsX(P, SortX(P, n-1), n)
\* one line, started at the head of the sequence: <<taken, left>>
RECURSIVE Walk(_,_,_,_,_)
Walk(P, g, seq, taken, left) ==
  IF seq = <<>> THEN <<taken, left>>
  ELSE LET i == Head(seq) IN
       IF taken = <<>> \/ OnLine(P[taken[Len(taken)]], P[i], g)
       THEN Walk(P, g, Tail(seq), Append(taken, i), left)
       ELSE Walk(P, g, Tail(seq), taken, Append(left, i))
RECURSIVE Lines(_,_,_,_)
Lines(P, g, seq, acc) ==
  IF Len(seq) < 2 THEN acc
  ELSE LET w == Walk(P, g, seq, <<>>, <<>>) IN
       Lines(P, g, w[2], IF Len(w[1]) > 1 THEN Append(acc, w[1]) ELSE acc)
Longest(L) == MaxOf({0} \cup {Len(L[i]) : i \in 1..Len(L)})
\* lines with at least num/den of the dots of the longest one
Accepted(L, num, den) == SelectSeq(L, LAMBDA l : Len(l) * den >= num * Longest(L))
RECURSIVE SumY(_,_,_)
SumY(P, l, k) == IF k = 0 THEN 0 ELSE P[l[k]][1] + SumY(P, l, k-1)
\* a above b (mean y)
Above(P, a, b) == SumY(P, a, Len(a)) * Len(b) < SumY(P, b, Len(b)) * Len(a)
RECURSIVE InsLine(_,_,_)
InsLine(P, seq, l) == IF seq = <<>> THEN <<l>>
   ELSE IF Above(P, l, Head(seq)) THEN <<l>> \o seq ELSE <<Head(seq)>> \o InsLine(P, Tail(seq), l)
RECURSIVE SortLines(_,_)
SortLines(P, L) == IF L = <<>> THEN <<>> ELSE InsLine(P, SortLines(P, SubSeq(L, 1, Len(L)-1)), L[Len(L)])
Group(P, g, num, den) == SortLines(P, Accepted(Lines(P, g, SortX(P, Len(P)), <<>>), num, den))
Swap(P) == [i \in 1..Len(P) |-> <<P[i][2], P[i][1]>>]

\* residuals of the parabola fitted to n heights at evenly spaced positions
T_(n, i) == 2 * (i-1) - (n-1)
RECURSIVE Acc(_,_,_)
Acc(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + Acc(F, a+1, b)
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
Residuals(y) ==
  LET n == Len(y)
      z == [i \in 1..n |-> y[i] - y[1]]
      T2(i) == T_(n,i) * T_(n,i)
      st == Acc(T2, 1, n)
      Q(i) == n * T2(i) - st
      Q2(i) == Q(i) * Q(i)
      sq == Acc(Q2, 1, n)
      Y0(i) == z[i]   Y1(i) == T_(n,i) * z[i]   Y2(i) == Q(i) * z[i]
      s0 == Acc(Y0, 1, n)  s1 == Acc(Y1, 1, n)  s2 == Acc(Y2, 1, n)
  IN [i \in 1..n |-> z[i] - s0 \div n - MulDiv(s1, T_(n,i), st) - MulDiv(s2, Q(i), sq)]
=============================================================================
