-------------------------------- MODULE Blobs -------------------------------
(***************************************************************************)
(* Binary images as sets of pixels <<y, x>>, their objects (components),   *)
(* and the measures used to tell dots from other objects.                  *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
Adj4(p, q) == Abs(p[1]-q[1]) + Abs(p[2]-q[2]) = 1
Adj8(p, q) == p # q /\ Abs(p[1]-q[1]) <= 1 /\ Abs(p[2]-q[2]) <= 1
N4(p) == { <<p[1]-1,p[2]>>, <<p[1]+1,p[2]>>, <<p[1],p[2]-1>>, <<p[1],p[2]+1>> }
N8(p) == { <<p[1]+a, p[2]+b>> : a \in -1..1, b \in -1..1 } \ {p}
\* pixels of M reachable from the front F (F, seen inside M)
RECURSIVE Flood4(_,_,_)
Flood4(M, F, seen) == IF F = {} THEN seen
   ELSE LET nx == (UNION {N4(p) : p \in F} \cap M) \ seen IN Flood4(M, nx, seen \cup nx)
RECURSIVE Flood8(_,_,_)
Flood8(M, F, seen) == IF F = {} THEN seen
   ELSE LET nx == (UNION {N8(p) : p \in F} \cap M) \ seen IN Flood8(M, nx, seen \cup nx)
RECURSIVE Objects(_)
Objects(M) == IF M = {} THEN {}
   ELSE LET p == CHOOSE p \in M : TRUE  o == Flood4(M, {p}, {p}) IN {o} \cup Objects(M \ o)
IsObjects(O, M) == /\ UNION O = M
                   /\ \A a \in O : a # {} /\ \A b \in O : a # b => (a \cap b = {} /\ \A p \in a : N4(p) \cap b = {})
                   /\ \A a \in O : LET p == CHOOSE p \in a : TRUE IN Flood4(a, {p}, {p}) = a
\* sums over pixel lists
RECURSIVE SumL(_,_,_)
SumL(F(_), l, n) == IF n = 0 THEN 0 ELSE F(l[n]) + SumL(F, l, n-1)
RECURSIVE ISqrtB(_,_,_)
ISqrtB(a, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo+hi) \div 2 IN IF m*m <= a THEN ISqrtB(a, m, hi) ELSE ISqrtB(a, lo, m)
ISqrt(a) == ISqrtB(a, 0, 46340)                \* floor of the root, a < 2^31

\* elongation of an object: (l1-l2)/(l1+l2) * 4096 from its second moments
Elong(b) ==
  LET n == Len(b)
      Y(p) == p[1] - b[1][1]  X(p) == p[2] - b[1][2]
      YY(p) == Y(p)*Y(p)  XX(p) == X(p)*X(p)  XY(p) == X(p)*Y(p)
      sy == SumL(Y, b, n)  sx == SumL(X, b, n)
      A == n * SumL(YY, b, n) - sy*sy
      B == n * SumL(XX, b, n) - sx*sx
      C == n * SumL(XY, b, n) - sx*sy
      v == (A-B)*(A-B) + 4*C*C
      d64 == IF v < 500000 THEN ISqrt(v * 4096) ELSE 64 * ISqrt(v)
  IN IF A + B = 0 THEN 0 ELSE (d64 * 64) \div (A + B)
Height(b) == MaxOf({b[i][1] : i \in 1..Len(b)}) - MinOf({b[i][1] : i \in 1..Len(b)}) + 1
Width(b)  == MaxOf({b[i][2] : i \in 1..Len(b)}) - MinOf({b[i][2] : i \in 1..Len(b)}) + 1
\* centroid in 1/64 px
Cent(b) == LET Y(p) == p[1]  X(p) == p[2]  n == Len(b)
           IN << (SumL(Y, b, n) * 128 + n) \div (2*n), (SumL(X, b, n) * 128 + n) \div (2*n) >>
Dist(c, d) == ISqrt((c[1]-d[1])*(c[1]-d[1]) + (c[2]-d[2])*(c[2]-d[2]))
\* sorted insertion into a sequence of numbers
RECURSIVE InsN(_,_)
InsN(s, v) == IF s = <<>> THEN <<v>> ELSE IF v < Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o InsN(Tail(s), v)
RECURSIVE SortN(_)
SortN(s) == IF s = <<>> THEN <<>> ELSE InsN(SortN(Tail(s)), Head(s))
\* distances of object i to the others, ascending
Dists(cs, i) == LET o == SelectSeq([j \in 1..Len(cs) |-> j], LAMBDA j : j # i)
                IN SortN([j \in 1..Len(o) |-> Dist(cs[i], cs[o[j]])])
\* the median, doubled
Median2(s) == LET n == Len(s) IN IF n % 2 = 1 THEN 2 * s[(n+1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
=============================================================================
