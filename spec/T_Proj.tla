------------------------------- MODULE T_Proj -------------------------------
(***************************************************************************)
(* Trace specification: recorded perspective calls.                        *)
(*  op "coef"  coefficients from point pairs (s[n] source, t[n] target)    *)
(*  op "inv"   forward and backward coefficients of the same pairs         *)
(*  op "perm"  inconsistent pairs, listed in two orders                    *)
(*  op "line"  points moved by coefficients                                *)
(*  op "wide"  the same near the horizon of the map and beyond it          *)
(*  op "image" image corrected by backward coefficients                    *)
(*  op "horizon" the same, the map changing sign inside the frame          *)
(*  op "index" image corrected by given positions pos[n]                   *)
(*  op "reject" a call that has to be refused                              *)
(***************************************************************************)
EXTENDS Projective, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad

u(e) == S \div e.R
M(e) == [R |-> e.R, xc |-> 0, yc |-> 0, K |-> <<S>>]
PTol(e) == 40 + u(e) \div 500
SrcP(e, n) == IF e.map = "forward" THEN e.s[n] ELSE e.t[n]
DstP(e, n) == IF e.map = "forward" THEN e.t[n] ELSE e.s[n]
PairOK(e, n) == Defined(e.c, SrcP(e,n)) /\ NearPt(Proj(e.c, SrcP(e,n)), DstP(e,n), PTol(e))
InvOK(e, n) == /\ Defined(e.cf, e.p[n])
               /\ LET q == Proj(e.cf, e.p[n]) IN
                  SanePt(q) /\ Defined(e.cb, q) /\ NearPt(Proj(e.cb, q), e.p[n], 2 * PTol(e))
LineOK(e, l) == Len(e.res[l]) = Len(e.lines[l]) /\
   \A p \in 1..Len(e.lines[l]) : NearPt(e.res[l][p], Proj(e.c, e.lines[l][p]), 24 + u(e) \div 200)

\* points near the horizon or beyond it: the law in its multiplied form
WideOK(e, l) == Len(e.res[l]) = Len(e.lines[l]) /\
   \A p \in 1..Len(e.lines[l]) :
      LET z == e.lines[l][p]  q == e.res[l][p]  d == Den(e.c, z)  t == 300 + u(e) \div 100 IN
      /\ Abs(q[1]) < 16*S /\ Abs(q[2]) < 16*S
      /\ Near(FMul(q[2], d), FMul(e.c[1], z[2]) + FMul(e.c[2], z[1]) + e.c[3], t)
      /\ Near(FMul(q[1], d), FMul(e.c[4], z[2]) + FMul(e.c[5], z[1]) + e.c[6], t)

\* pairs that agree with no single map: the answer does not depend on the
\* order in which the pairs are listed, and stays near all of them
PermOK(e, n) == /\ Defined(e.c, SrcP(e,n)) /\ Defined(e.c2, SrcP(e,n))
                /\ NearPt(Proj(e.c, SrcP(e,n)), Proj(e.c2, SrcP(e,n)), PTol(e))
                /\ NearPt(Proj(e.c, SrcP(e,n)), DstP(e,n), e.noise)

IsInt(dt) == dt \in {"uint8", "uint16", "int16", "int32", "int64", "uint32"}
Tol(e) == 40 + (IF IsInt(e.dt) THEN 520 ELSE 0)
PosTol(e) == 16 + u(e) \div 2048 + (IF e.op = "horizon" THEN 160 ELSE 0)
V(e, i, j) == ImgVal(e.kind, 0, i, j)
SampleOK(e, s, v) ==
  LET m == M(e)  VV(i, j) == V(e, i, j)  H == e.h  Wd == e.w
      d == PosTol(e)
  IN CASE e.order = 1 -> BilinearWithin(m, VV, s, H, Wd, d, v, Tol(e))
       [] e.order = 0 -> \E x \in NearestVals(m, VV, s, H, Wd, d + u(e) \div 1024) : Near(v, x * 1024, 8)
       [] OTHER -> IF e.kind = 3 THEN Near(v, VV(0,0) * 1024, Tol(e))
                   ELSE IF e.kind \in {4, 5}      \* the wave, half way between its pixels
                   THEN LET q == IF e.kind = 4 THEN s[2] ELSE s[1]  n == IF e.kind = 4 THEN Wd ELSE H  c0 == Cell(m, q)
                        IN (Near(Frac14(m, q), 8192, 4) /\ 14 <= c0 /\ c0 < n - 15)
                             => Near(v, 102400 + (IF c0 % 4 \in {0, 3} THEN 1 ELSE -1) * WaveHalf(e.order), Tol(e) + 60)
                   ELSE LET fy == Frac14(m, s[1])  fx == Frac14(m, s[2])
                            i0 == Cell(m, s[1])  j0 == Cell(m, s[2])
                            interior == 8 <= i0 /\ i0 < H - 9 /\ 8 <= j0 /\ j0 < Wd - 9
                            ty == (fy * ((W14 - fy) \div 16)) \div 16384
                            tx == (fx * ((W14 - fx) \div 16)) \div 16384
                        IN (e.kind = 2 /\ interior) => Near(v, Bilinear(m, VV, s, H, Wd) - ty - 2*tx, Tol(e) + 100)
\* whole-pixel positions outside the frame, by boundary mode
Ext(mode, a, n) ==
  CASE mode = "nearest" -> Clamp(a, 0, n-1)
    [] mode \in {"reflect", "grid-mirror"} -> LET z == a % (2*n) IN IF z < n THEN z ELSE 2*n - 1 - z
    [] mode = "mirror" -> IF n = 1 THEN 0 ELSE LET z == a % (2*n - 2) IN IF z < n THEN z ELSE 2*n - 2 - z
    [] mode = "grid-wrap" -> a % n
    [] OTHER -> a
ExtVal(e, i, j) ==
  IF e.mode \in {"constant", "grid-constant"} /\ ~(0 <= i /\ i < e.h /\ 0 <= j /\ j < e.w) THEN 0
  ELSE V(e, Ext(e.mode, i, e.h), Ext(e.mode, j, e.w))

\* a map whose horizon crosses the frame: the law on both sides of it
HorizonOK(e, q) == Abs(Den(e.c, << Px(M(e), q[1]), Px(M(e), q[2]) >>)) < S \div 16
                   \/ SampleOK(e, PSrc(M(e), e.c, q[1], q[2], e.h, e.w), q[3])
PixOK(e, q) == SampleOK(e, PSrc(M(e), e.c, q[1], q[2], e.h, e.w), q[3])
\* z = <<value, y, x>> positions in fixed point, or whole pixels when e.whole
IdxOK(e, z) == IF e.whole = 1 THEN Near(z[1], ExtVal(e, z[2], z[3]) * 1024, 40)
               ELSE SampleOK(e, << z[2], z[3] >>, z[1])

Head_(e) ==
  CASE e.op = "reject" -> IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected"
    [] e.out # "ok" -> "outcome"
    [] e.op = "coef" -> IF SaneC(e.c) THEN "ok" ELSE "coefficients"
    [] e.op = "perm" -> IF SaneC(e.c) /\ SaneC(e.c2) THEN "ok" ELSE "coefficients"
    [] e.op = "inv" -> IF SaneC(e.cf) /\ SaneC(e.cb) THEN "ok" ELSE "coefficients"
    [] e.op \in {"line", "wide"} -> IF Len(e.res) = Len(e.lines) THEN "ok" ELSE "structure"
    [] OTHER -> IF e.oh # e.h \/ e.ow # e.w THEN "shape" ELSE IF e.odt # e.dt THEN "dtype" ELSE "ok"
NSteps(e) == IF e.out # "ok" \/ e.op = "reject" THEN 1
             ELSE 1 + (CASE e.op \in {"coef", "perm"} -> Len(e.s) [] e.op = "inv" -> Len(e.p)
                         [] e.op \in {"line", "wide"} -> Len(e.lines) [] OTHER -> Len(e.pix))
Clause(e, n) ==
  IF n = 1 THEN Head_(e)
  ELSE LET good == CASE e.op = "coef" -> PairOK(e, n-1)
                     [] e.op = "inv" -> InvOK(e, n-1)
                     [] e.op = "perm" -> PermOK(e, n-1)
                     [] e.op = "line" -> LineOK(e, n-1)
                     [] e.op = "wide" -> WideOK(e, n-1)
                     [] e.op = "image" -> PixOK(e, e.pix[n-1])
                     [] e.op = "horizon" -> HorizonOK(e, e.pix[n-1])
                     [] e.op = "index" -> IdxOK(e, e.pix[n-1])
                     [] OTHER -> FALSE
       IN IF good THEN "ok" ELSE e.op
INSTANCE TraceBase
=============================================================================
