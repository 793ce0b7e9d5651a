----------------------------- MODULE T_PointSets ----------------------------
(***************************************************************************)
(* Trace specification: recorded masks and filtered or moved points.       *)
(*  "mask"    e.px: pixels of value one, e.bin: only 0 and 1               *)
(*  "turn"    mask rotated by 90*e.q degrees (in frames where that is      *)
(*            exact up to the curves): judged away from the curves         *)
(*  "tilt"    mask rotated about the middle of the frame by the angle of   *)
(*            the triple e.t: judged two pixels away from the curves       *)
(*  "keep"    points (1/64 px) e.P, kept e.res                             *)
(*  "rot"     points (1/64) e.P turned by a triple, e.res in 1/1024        *)
(*  "minus"   e.P without e.R (identities), e.res                          *)
(***************************************************************************)
EXTENDS PointSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Set(l) == {l[i] : i \in 1..Len(l)}
W(e, y, x) == Where(y, x, e.h, e.w, e.hc, e.vc, e.mg)
MaskRow(e, y) == LET got == {p[2] : p \in {q \in Set(e.px) : q[1] = y}} IN
   IF \E x \in 0..e.w-1 : W(e, y, x) = "in" /\ x \notin got THEN "mask-pixel-lost"
   ELSE IF \E x \in 0..e.w-1 : W(e, y, x) = "out" /\ x \in got THEN "mask-pixel-invented" ELSE "ok"
\* where the pixel (y, x) of the turned frame comes from
Src(e, y, x) == IF e.q = 2 THEN <<e.h-1-y, e.w-1-x>> ELSE IF e.q = 1 THEN <<x, e.w-1-y>> ELSE <<e.h-1-x, y>>
Plain(e, p) == \A dy, dx \in -1..1 : LET y == p[1]+dy x == p[2]+dx IN
   InImage(y, x, e.h, e.w) /\ W(e, y, x) # "even" /\ W(e, y, x) = W(e, p[1], p[2])
TurnRow(e, y) == LET got == {p[2] : p \in {q \in Set(e.px) : q[1] = y}} IN
   IF \A x \in 0..e.w-1 : LET s == Src(e, y, x) IN Plain(e, s) => ((W(e, s[1], s[2]) = "in") <=> x \in got) THEN "ok" ELSE "turned-mask"
\* source of the pixel (y, x) of a mask rotated by a triple, rounded to a pixel
TiltY(e, y, x) == (e.t[2]*(2*y-e.h+1) + e.t[1]*(2*x-e.w+1) + e.t[3]*e.h) \div (2*e.t[3])
TiltX(e, y, x) == (e.t[2]*(2*x-e.w+1) - e.t[1]*(2*y-e.h+1) + e.t[3]*e.w) \div (2*e.t[3])
WF(e, y, x) == IF InImage(y, x, e.h, e.w) THEN W(e, y, x) ELSE "out"
Wide(e, p, v) == \A dy, dx \in {-3, 0, 3} : WF(e, p[1]+dy, p[2]+dx) = v
\* the mask at the source of the pixel (y, x), interpolated between the four
\* pixels around it, in (2 t3)^2-ths; -1 where the mask is not determined
TiltVal(e, y, x) ==
  LET d == 2*e.t[3]
      a == e.t[2]*(2*y-e.h+1) + e.t[1]*(2*x-e.w+1) + e.t[3]*(e.h-1)
      b == e.t[2]*(2*x-e.w+1) - e.t[1]*(2*y-e.h+1) + e.t[3]*(e.w-1)
      i == a \div d  j == b \div d  fy == a % d  fx == b % d
      ok == InImage(i-1, j-1, e.h, e.w) /\ InImage(i+2, j+2, e.h, e.w) /\ \A p, q \in {0, 1} : W(e, i+p, j+q) # "even"
      v(p, q) == IF W(e, i+p, j+q) = "in" THEN 1 ELSE 0
  IN IF ~ok THEN -1 ELSE (d-fy)*((d-fx)*v(0,0) + fx*v(0,1)) + fy*((d-fx)*v(1,0) + fx*v(1,1))
TiltFine(e, y, got) == LET d == 4*e.t[3]*e.t[3] IN
   \A x \in 0..e.w-1 : LET v == TiltVal(e, y, x) IN
      v # -1 => (16*v > 15*d => x \in got) /\ (16*v < d => x \notin got)
TiltRow(e, y) == LET got == {p[2] : p \in {q \in Set(e.px) : q[1] = y}} IN
   IF \E x \in 0..e.w-1 : x \notin got /\ Wide(e, <<TiltY(e, y, x), TiltX(e, y, x)>>, "in") THEN "turned-mask"
   ELSE IF \E x \in got : Wide(e, <<TiltY(e, y, x), TiltX(e, y, x)>>, "out") THEN "turned-mask"
   ELSE IF ~TiltFine(e, y, got) THEN "turned-mask-edge" ELSE "ok"
\* kept points: order preserved, decided by the pixel that contains the point
RECURSIVE Walk(_,_,_)
Walk(e, i, j) ==
  IF i > Len(e.P) THEN (IF j > Len(e.res) THEN "ok" ELSE "point-invented")
  ELSE LET p == e.P[i]  y == p[1] \div 64  x == p[2] \div 64
           d == IF ~InImage(y, x, e.h, e.w) THEN (IF p[1] > -64 /\ p[2] > -64 /\ y < e.h /\ x < e.w THEN "even" ELSE "out") ELSE W(e, y, x)
           here == j <= Len(e.res) /\ e.res[j] = p
       IN IF d = "in" THEN (IF here THEN Walk(e, i+1, j+1) ELSE "point-lost")
          ELSE IF d = "out" THEN Walk(e, i+1, j)
          ELSE IF here /\ Walk(e, i+1, j+1) = "ok" THEN "ok" ELSE Walk(e, i+1, j)
KeepClause(e) == Walk(e, 1, 1)
RotClause(e) == IF Len(e.res) # Len(e.P) THEN "length"
   ELSE IF \E i \in 1..Len(e.P) : LET p == e.P[i] IN
        \/ Abs(e.res[i][1] * e.t[3] - 16 * RotY(p, e.t)) > 2 * e.t[3]
        \/ Abs(e.res[i][2] * e.t[3] - 16 * RotX(p, e.t)) > 2 * e.t[3] THEN "rotated-point" ELSE "ok"
MinusClause(e) == IF e.res = Without(e.P, Set(e.R)) THEN "ok" ELSE "difference"
Frame(e) == e.op \in {"mask", "turn", "tilt"} /\ e.out = "ok"
NSteps(e) == IF Frame(e) THEN e.h ELSE 1
Clause(e, z) ==
  IF e.op \in {"mask", "turn", "tilt", "keep"} /\ BadMargins(e.h, e.w, e.mg) THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF e.op = "mask" THEN (IF e.bin # 1 \/ e.oh # e.h \/ e.ow # e.w THEN "not-a-mask" ELSE MaskRow(e, z-1))
  ELSE IF e.op = "turn" THEN (IF e.bin # 1 \/ e.oh # e.h \/ e.ow # e.w THEN "not-a-mask" ELSE TurnRow(e, z-1))
  ELSE IF e.op = "tilt" THEN (IF e.bin # 1 \/ e.oh # e.h \/ e.ow # e.w THEN "not-a-mask" ELSE TiltRow(e, z-1))
  ELSE IF e.op = "keep" THEN KeepClause(e) ELSE IF e.op = "rot" THEN RotClause(e) ELSE MinusClause(e)
INSTANCE TraceBase
=============================================================================
