------------------------------- MODULE T_Lines ------------------------------
(***************************************************************************)
(* Trace specification: recorded tilted profiles, measured line patterns,  *)
(* crossing points, converted chessboards.                                 *)
(*  "prof"   get_tilted_profile; xs, ys in 1/1024 px, vals in 1/64 of      *)
(*           the image  a*x + b*y + 1000                                   *)
(*  "meas"   slope (1/2^15) and distance (1/64 px) of a family of lines    *)
(*  "cross"  crossing points of one family, g: the pattern                 *)
(*  "slopes" errors of the slopes of many tilted patterns (1/2^15)         *)
(*  "none"   crossing points asked for with a sensitivity nothing reaches  *)
(*  "same"   two results which must agree                                  *)
(*  "board"  converted chessboard: largest value on a line, smallest       *)
(*           between lines, mean (1/1024)                                  *)
(***************************************************************************)
EXTENDS Lines, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Q == 1024
ProfOK(e, l) == LET n == Len1(e.dir, e.h, e.w)  m == Len2(e.dir, e.h, e.w)  un == e.t[3] * (n - 1)
                    P == IF e.dir = "hor" THEN e.xs ELSE e.ys
                    R == IF e.dir = "hor" THEN e.ys ELSE e.xs IN
   \A j \in 1..n :
     LET a == Along(j-1, l, e.t)
         b == Clamp(Across(j-1, l, e.t, e.dir, e.sg, e.idx, n), 0, (m-1) * un)
     IN Abs(P[j] - (a \div un) * Q - ((a % un) * Q) \div un) <= 2 /\ Abs(R[j] - (b \div un) * Q - ((b % un) * Q) \div un) <= 2
\* the image (x-a)^2 + (y-b)^2 away from its border
\* (and of the band of rows or columns which the profile crosses)
Inner(e, Z, j) == LET n == Len(Z)  lo == Min2(Z[1], Z[n])  hi == Max2(Z[1], Z[n]) IN Z[j] >= lo + 7 * Q /\ Z[j] <= hi - 7 * Q
Bent(d) == (d * d) \div 16384
ProfClause(e) ==
  LET n == Len1(e.dir, e.h, e.w) IN
  IF Len(e.xs) # n \/ Len(e.ys) # n \/ Len(e.vals) # n THEN "length"
  ELSE IF ~(\E l \in Spans(n, e.t) : ProfOK(e, l)) THEN "position"
  ELSE IF e.bent = 1 THEN
     (IF \E j \in 1..n : Inner(e, e.xs, j) /\ Inner(e, e.ys, j) /\ Abs(e.vals[j] - Bent(e.xs[j] - e.a * Q) - Bent(e.ys[j] - e.b * Q)) > 8 THEN "value-of-a-bent-image" ELSE "ok")
  ELSE IF \E j \in 1..n : Abs(e.vals[j] - 64000 - (e.a * e.xs[j] + e.b * e.ys[j]) \div 16) > 13 * (Abs(e.a) + Abs(e.b)) + e.vt THEN "value"
  ELSE IF e.t[1] = 0 /\ \E j \in 1..n : Abs(e.vals[j] - 64000 - (e.a * e.xs[j] + e.b * e.ys[j]) \div 16) > e.vt THEN "value-on-a-row"
  ELSE "ok"
MeasClause(e) == IF Abs(e.slope - e.truth) > e.stol THEN "slope"
                 ELSE IF Abs(e.dist - e.p) * 100 > e.dtol * e.p THEN "distance" ELSE "ok"

\* ---- crossing points
Target(e, X, Y) == IF e.fam = "hor" THEN VOf(e.g, X, Y) ELSE UOf(e.g, X, Y)
Other(e, X, Y)  == IF e.fam = "hor" THEN UOf(e.g, X, Y) ELSE VOf(e.g, X, Y)
Clear(e, X, Y) == Abs(Off(Other(e, X, Y), e.g.p)) >= e.clr
Err(e, i) == Abs(Off(Target(e, e.X[i], e.Y[i]), e.g.p))
\* profiles: run across the family, start at row 0 ("hor") or column 0 ("ver")
DropUp(len, T) == CeilDiv(len * Abs(T), 1024)
DropDn(len, T) == (len * Abs(T)) \div 1024
FirstIdx(e) == IF e.fam = "hor" THEN (IF e.T < 0 THEN 0 ELSE DropDn(e.h, e.T)) ELSE (IF e.T < 0 THEN DropUp(e.w, e.T) ELSE 0)
LastIdx(e)  == IF e.fam = "hor" THEN (IF e.T < 0 THEN e.w - 1 - DropUp(e.h, e.T) ELSE e.w - 1)
                                ELSE (IF e.T < 0 THEN e.h - 1 ELSE e.h - 1 - DropDn(e.w, e.T))
NProf(e) == LET a == 64 * (FirstIdx(e) + e.off)  b == 64 * (LastIdx(e) - e.off) IN IF b <= a THEN 0 ELSE CeilDiv(b - a, e.step)
StartOf(e, j) == 64 * (FirstIdx(e) + e.off) + j * e.step
\* expected crossing r along profile j (1/64 px) -> coordinates
XAt(e, j, r) == IF e.fam = "hor" THEN StartOf(e, j) - (r * e.g.s) \div U15 ELSE (r * e.g.c) \div U15
YAt(e, j, r) == IF e.fam = "hor" THEN (r * e.g.c) \div U15 ELSE StartOf(e, j) + (r * e.g.s) \div U15
Span(e) == 64 * (IF e.fam = "hor" THEN e.h - 1 ELSE e.w - 1)
Seen(e, X, Y) == \E i \in 1..Len(e.X) : Abs(e.X[i] - X) <= e.near /\ Abs(e.Y[i] - Y) <= e.near
ProfSeen(e, j) ==
   LET X0 == IF e.fam = "hor" THEN StartOf(e, j) ELSE 0  Y0 == IF e.fam = "hor" THEN 0 ELSE StartOf(e, j)
       t0 == Target(e, X0, Y0)
       r0 == (-t0) % e.g.p           \* first line met
       mar == 64 * (e.rad + 5)
       across == 64 * (IF e.fam = "hor" THEN e.w ELSE e.h)
       last == IF e.fam = "hor" THEN XAt(e, j, Span(e)) ELSE YAt(e, j, Span(e))
       inside == \A b \in {StartOf(e, j), last} : b >= 64 * e.mar /\ b <= across - 64 * e.mar
   IN ~Clear(e, X0, Y0) \/ ~inside \/
      \A z \in 0..(Span(e) \div e.g.p) : LET r == r0 + z * e.g.p IN
        (r > mar /\ r < Span(e) - mar) => Seen(e, XAt(e, j, r), YAt(e, j, r))
\* every point lies on one of the profiles
OnProfile(e, i) == LET b == IF e.fam = "hor" THEN e.X[i] + (e.Y[i] * e.T) \div 1024 ELSE e.Y[i] - (e.X[i] * e.T) \div 1024
                       j == (b - StartOf(e, 0) + e.step \div 2) \div e.step
                   IN j >= 0 /\ j < NProf(e) /\ Abs(b - StartOf(e, j)) <= 32
CrossClause(e, z) ==
  IF z = 1 THEN
    IF \E i \in 1..Len(e.X) : Clear(e, e.X[i], e.Y[i]) /\ Err(e, i) > e.tmax THEN "point-off-the-line"
    ELSE IF LET cl == {i \in 1..Len(e.X) : Clear(e, e.X[i], e.Y[i])}
            IN Cardinality({i \in cl : Err(e, i) <= e.tmost}) * 10 < 8 * Cardinality(cl) THEN "points-biased"
    ELSE IF Len(e.X) = 0 THEN "no-points" ELSE "ok"
  ELSE IF z = 2 THEN (IF \E i \in 1..Len(e.X) : ~OnProfile(e, i) THEN "point-off-the-profiles"
                    ELSE IF e.sub = 0 /\ e.T = 0 /\ \E i \in 1..Len(e.X) : (IF e.fam = "hor" THEN e.Y[i] ELSE e.X[i]) % 64 # 0 THEN "not-whole-pixels" ELSE "ok")
  ELSE IF ProfSeen(e, z - 3) THEN "ok" ELSE "crossing-missed"
SameClause(e) == IF Len(e.A) # Len(e.B) THEN e.what
                 ELSE IF \E i \in 1..Len(e.A) : Abs(e.A[i] - e.B[i]) > e.tol THEN e.what ELSE "ok"
BoardClause(e) == IF e.oh # e.h \/ e.ow # e.w THEN "shape"
   ELSE IF Abs(e.mean - Q) > 3 THEN "mean"
   ELSE IF e.bgr = "bright" /\ ~(2 * e.online < e.between) THEN "lines-not-dark"
   ELSE IF e.bgr = "dark" /\ ~(e.online > 2 * e.between) THEN "lines-not-bright"
   ELSE IF e.zero > 1 THEN "no-zero" ELSE "ok"
NSteps(e) == IF e.op = "cross" /\ e.out = "ok" THEN 2 + NProf(e) ELSE 1
Clause(e, z) ==
  IF e.op = "reject" THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF e.op = "prof" /\ ~Allowed(e.dir, e.t, e.sg, e.h, e.w, e.idx) /\ ~Doubtful(e.dir, e.t, e.sg, e.h, e.w, e.idx)
       THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF e.op = "prof" /\ Doubtful(e.dir, e.t, e.sg, e.h, e.w, e.idx) /\ e.out = "raise:ValueError" THEN "ok"
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF e.op = "none" THEN (IF e.n = 0 THEN "ok" ELSE "sensitivity")
  ELSE IF e.op = "slopes" THEN (IF Cardinality({i \in 1..Len(e.err) : e.err[i] <= 100}) * 3 >= 2 * Len(e.err) THEN "ok" ELSE "slopes-imprecise")
  ELSE IF e.op = "prof" THEN ProfClause(e) ELSE IF e.op = "meas" THEN MeasClause(e)
  ELSE IF e.op = "cross" THEN CrossClause(e, z) ELSE IF e.op = "same" THEN SameClause(e) ELSE BoardClause(e)
INSTANCE TraceBase
=============================================================================
