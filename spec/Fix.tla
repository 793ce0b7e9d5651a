-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed-point arithmetic in TLC's 32-bit integers.                        *)
(* A number v is represented by the integer round(v * S), S = 2^24.        *)
(* Every operator keeps intermediate results inside 32 bits provided its   *)
(* operands stay below 32 (FMul, FDiv, FSqrt arguments: |v| < 32) and the  *)
(* result does too.  The callers guard ranges before calling.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

S  == 16777216          \* 2^24: the unit
LB == 4096              \* 2^12: the limb, LB * LB = S

Abs(a)    == IF a < 0 THEN -a ELSE a
Min2(a,b) == IF a < b THEN a ELSE b
Max2(a,b) == IF a > b THEN a ELSE b
Clamp(a,lo,hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
Near(a,b,tol)  == Abs(a - b) <= tol

\* (a*b)/S rounded to nearest (error < 1 unit in the last place)
FMul(a,b) ==
  LET ah == a \div LB  al == a % LB
      bh == b \div LB  bl == b % LB
  IN  ah*bh + (ah*bl + al*bh + (al*bl) \div LB + LB \div 2) \div LB

RECURSIVE DivBits(_,_,_,_)
DivBits(q,r,b,n) ==
  IF n = 0 THEN q
  ELSE LET r2 == 2*r IN
       IF r2 >= b THEN DivBits(2*q+1, r2-b, b, n-1)
                  ELSE DivBits(2*q,   r2,   b, n-1)
\* a/b for b > 0 (binary long division)
FDivPos(a,b) == DivBits(a \div b, a % b, b, 24)
FDiv(a,b) == IF b < 0 THEN FDivPos(-a,-b) ELSE FDivPos(a,b)

RECURSIVE SqrtBis(_,_,_)
SqrtBis(a,lo,hi) ==        \* invariant: lo^2 <= a < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo+hi) \div 2 IN
       IF FMul(m,m) <= a THEN SqrtBis(a,m,hi) ELSE SqrtBis(a,lo,m)
FSqrt(a) == SqrtBis(a, 0, 8*S + 1)

\* polynomial  c[1] + c[2] t + c[3] t^2 + ...   (Horner)
RECURSIVE Horner(_,_,_)
Horner(c,t,i) == IF i = Len(c) THEN c[i] ELSE c[i] + FMul(t, Horner(c,t,i+1))
Poly(c,t) == IF Len(c) = 0 THEN 0 ELSE Horner(c,t,1)

RECURSIVE SumFrom(_,_,_)
SumFrom(f,i,n) == IF i > n THEN 0 ELSE f[i] + SumFrom(f,i+1,n)
SumSeq(f) == SumFrom(f,1,Len(f))

MaxOf(A) == CHOOSE x \in A : \A y \in A : y <= x
MinOf(A) == CHOOSE x \in A : \A y \in A : x <= y
=============================================================================
