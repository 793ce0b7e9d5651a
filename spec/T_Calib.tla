------------------------------ MODULE T_Calib -------------------------------
(***************************************************************************)
(* Trace specification: recorded calibrations.                             *)
(*  op "centre": the centre found for an observed grid                     *)
(*  op "coef"  : the coefficients found; they must take the observed nodes *)
(*               back to straight, evenly spaced lines at the scale of the *)
(*               observed grid                                             *)
(*  op "warn"  : the warning about a missing line                          *)
(*  op "count" : as many coefficients as asked for                         *)
(*  op "symcentre", "symcoef": the same grid presented in another way      *)
(***************************************************************************)
EXTENDS Calib, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
MM(e, T) == [R |-> e.R, xc |-> e.xc, yc |-> e.yc, K |-> T]
u(e) == S \div e.R
CTol(e) == CASE e.method = "coarse" -> (e.pitch * u(e) * 9) \div 16
             [] e.method = "fine" -> (9 * u(e)) \div 4
             [] e.method \in {"vp", "vp_iter"} -> (e.pitch * u(e)) \div 5
             [] OTHER -> (e.pitch * u(e)) \div 8
SaneK(T) == \A i \in 1..Len(T) : Abs(T[i]) < 28*S

\* straightness and evenness of a correction by n coefficients, in px/100
StrTol(n) == IF n <= 2 THEN 600 ELSE 80
EvenTol(n) == IF n <= 2 THEN 350 ELSE 80
CorrLine(e, T, d, line) == [j \in 1..Len(line) |-> Corrected(MM(e, T), d, line[j])]

(* Symmetries: the same grid presented differently (rows and columns        *)
(* exchanged, lines listed in reverse, shifted, mirrored about x = w/2).    *)
BackCentre(e) == CASE e.kind = "transpose" -> << e.bx, e.by >>
                   [] e.kind = "shift" -> << e.by - e.sy, e.bx - e.sx >>
                   [] e.kind = "mirror" -> << e.by, e.sx - e.bx >>
                   [] OTHER -> << e.by, e.bx >>
SymTol(e) == IF e.method \in {"vp", "vp_iter"} THEN u(e) \div 4 ELSE u(e) \div 20
SymCentre(e) == LET b == BackCentre(e) IN Near(b[1], e.fy, SymTol(e)) /\ Near(b[2], e.fx, SymTol(e))
SymCoef(e) == /\ Len(e.T) = Len(e.T2) /\ SaneK(e.T) /\ SaneK(e.T2)
              /\ \A n \in 1..8 : LET r == n * (S \div 10) IN Near(FMul(r, Poly(e.T, r)), FMul(r, Poly(e.T2, r)), u(e) \div 20)

NM(e) == Len(e.models)
(* The corrected grid is as wide as the distance of the observed lines near *)
(* the centre says (or as the least-squares distance, if asked for).        *)
HI(e) == [i \in 1..e.nh |-> Intercept(e.pts[i], 1, << e.yc, e.xc >>)]
VI(e) == [j \in 1..e.nv |-> Intercept(Col(e.pts, j), 2, << e.yc, e.xc >>)]
NumUse(e) == Min2(3, Min2(e.nh \div 2 - 1, e.nv \div 2 - 1))
Steps(e, I) == {IF e.optimizing = 1 THEN LsqStep(I, m) ELSE MeanStep(I, m, NumUse(e)) : m \in Middles(I, u(e) \div 4)}
MeanLen(L, M, n) == SumSeq([q \in 1..Len(L) |-> Dist(L[q], M[q]) \div n]) \div Len(L)
Ends(e, T, d, x) == CorrLine(e, T, d, x)
ScaleOK(e, T, d) ==
  LET w == MeanLen(Ends(e, T, d, Col(e.pts, 1)), Ends(e, T, d, Col(e.pts, e.nv)), e.nv - 1)
      h == MeanLen(Ends(e, T, d, e.pts[1]), Ends(e, T, d, e.pts[e.nh]), e.nh - 1)
  IN \E a \in Steps(e, HI(e)), b \in Steps(e, VI(e)) : Near((w + h) \div 2, (a + b) \div 2, u(e) \div 6)
NSteps(e) == IF e.out # "ok" THEN 1 ELSE IF e.op = "coef" THEN 1 + NM(e) * (e.nh + e.nv) ELSE 1
Line(e, x) == IF x <= e.nh THEN e.pts[x] ELSE Col(e.pts, x - e.nh)
Clause(e, n) ==
  IF e.out # "ok" THEN "outcome"
  ELSE CASE e.op = "centre" -> IF Near(e.fx, e.xc, CTol(e)) /\ Near(e.fy, e.yc, CTol(e)) THEN "ok" ELSE "centre-" \o e.method
       [] e.op = "symcentre" -> IF SymCentre(e) THEN "ok" ELSE "symmetry-" \o e.kind \o "-" \o e.method
       [] e.op = "symcoef" -> IF SymCoef(e) THEN "ok" ELSE "symmetry-" \o e.kind \o "-" \o e.method
       [] e.op = "count" -> IF \A a \in 1..Len(e.lens) : e.lens[a] = e.nf /\ e.finite = 1 THEN "ok" ELSE "number-of-coefficients-" \o e.method
       [] e.op = "warn" -> IF e.warned = e.missing THEN "ok" ELSE "missing-line-warning"
       [] e.op = "coef" ->
          IF n = 1 THEN (IF \A a \in 1..NM(e) : Len(e.models[a].T) = e.nf /\ SaneK(e.models[a].T) THEN (IF e.nf < 3 \/ \A a \in 1..NM(e) : ScaleOK(e, e.models[a].T, e.models[a].dir) THEN "ok" ELSE "scale-" \o e.method) ELSE "coefficients")
          ELSE LET a == ((n-2) \div (e.nh + e.nv)) + 1
                   x == ((n-2) % (e.nh + e.nv)) + 1
                   L == CorrLine(e, e.models[a].T, e.models[a].dir, Line(e, x))
               IN IF ~Straight(L, (u(e) * StrTol(e.nf)) \div 100) THEN "not-straight-" \o e.method
                  ELSE IF ~Even(L, (u(e) * EvenTol(e.nf)) \div 100) THEN "not-even-" \o e.method
                  ELSE "ok"
       [] OTHER -> "unknown-op"
INSTANCE TraceBase
=============================================================================
