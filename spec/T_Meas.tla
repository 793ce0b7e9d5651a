------------------------------- MODULE T_Meas -------------------------------
(***************************************************************************)
(* Trace specification: measures of a segmented pattern.                   *)
(*  "size"   median size and median nearest distance of the complete       *)
(*           objects in the central region (e.size2, e.dist128)            *)
(*  "slope"  slope of rows and columns (1/65536)                           *)
(*  "points" centres of all objects (1/64 px)                              *)
(*  "reject" an image that is not binary                                   *)
(***************************************************************************)
EXTENDS Segment, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
PxSet(l) == {l[i] : i \in 1..Len(l)}
Roi(M, h, w, r64) ==
  LET a == Margin(h, r64)  b == Margin(w, r64)
  IN {<<p[1] - a, p[2] - b>> : p \in {q \in M : InRoi(q, h, w, r64)}}
Seqs(O) == LET o == SetToSeq(O) IN [i \in 1..Len(o) |-> SetToSeq(o[i])]
Complete(M, h, w, r64) ==
  LET R == Roi(M, h, w, r64)
  IN Seqs(Objects(R \ CutOff(R, h - 2 * Margin(h, r64), w - 2 * Margin(w, r64))))
SizeClause(e) ==
  LET bs == Complete(PxSet(e.px), e.h, e.w, e.r64)
      cs == [i \in 1..Len(bs) |-> Cent(bs[i])]
      near == SortN([i \in 1..Len(bs) |-> Dists(cs, i)[1]])
      sizes == SortN([i \in 1..Len(bs) |-> Len(bs[i])])
  IN IF Len(bs) < 2 THEN "ok"          \* not enough objects: no claim
     ELSE IF e.out # "ok" THEN "outcome"
     ELSE IF e.size2 # Median2(sizes) THEN "dot-size"
     ELSE IF ~Near(e.dist128, Median2(near), 6) THEN "dot-distance" ELSE "ok"
SlopeClause(e) == IF e.out # "ok" THEN "outcome"
     ELSE IF ~Near(e.hs, e.th, e.tol) THEN "horizontal-slope" ELSE IF ~Near(e.vs, e.tv, e.tol) THEN "vertical-slope" ELSE "ok"
PointsClause(e) ==
  LET M == IF e.grey = 1 THEN Binary(e.G, e.h, e.w, e.thr, 1) ELSE PxSet(e.px)
      bs == Seqs(Objects(M))
      Hit(i, p) == LET c == Cent(bs[i]) IN Near(p[1], c[1], 1) /\ Near(p[2], c[2], 1)
  IN IF e.out # "ok" THEN (IF bs = <<>> THEN "ok" ELSE "outcome")
     ELSE IF Len(e.res) # Len(bs) THEN "number-of-points"
     ELSE IF \A i \in 1..Len(bs) : \E n \in 1..Len(e.res) : Hit(i, e.res[n]) THEN "ok" ELSE "centre-missing"
\* single pixels at every second place
LatticeClause(e) ==
  LET a == (e.h + 1) \div 2  b == (e.w + 1) \div 2
  IN IF e.out # "ok" THEN "outcome"
     ELSE IF e.n # a * b \/ e.distinct # a * b THEN "number-of-points"
     ELSE IF e.sy # a * (a-1) * b \/ e.sx # b * (b-1) * a \/ e.last # << 128 * (a-1), 128 * (b-1) >> THEN "centre-missing" ELSE "ok"
NSteps(e) == 1
Clause(e, z) == CASE e.op = "size" -> SizeClause(e) [] e.op = "slope" -> SlopeClause(e)
                  [] e.op = "points" -> PointsClause(e) [] e.op = "lattice" -> LatticeClause(e)
                  [] e.op = "reject" -> IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected"
                  [] OTHER -> "unknown"
INSTANCE TraceBase
=============================================================================
