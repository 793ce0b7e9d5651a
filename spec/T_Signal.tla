------------------------------ MODULE T_Signal ------------------------------
(***************************************************************************)
(* Trace specification: recorded calls on one-dimensional profiles.        *)
(*  "sub"     locate_subpixel_point, e.p in 1/1024                         *)
(*  "slope"   sliding_window_slope, e.res in 1/1024                        *)
(*  "ext"     get_local_extrema_points without denoising and normalising;  *)
(*            e.res: positions (1/1024 if e.sub = 1)                       *)
(*  "same"    two results which must agree: e.A, e.B                       *)
(*  "peaks"   select_good_peaks: e.peaks given, e.good kept, e.res         *)
(*  "find"    extrema of a smooth periodic signal with denoising and/or    *)
(*            normalising: e.truth (1/1024), e.res, e.tol                  *)
(***************************************************************************)
EXTENDS Signal, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Q == 1024
Rng(s) == {s[i] : i \in 1..Len(s)}
SubClause(e) == IF SubPixOK(e.y, e.opt, e.p, Q, 2) THEN "ok" ELSE "subpixel-position"
SlopeClause(e) ==
  LET n == Len(e.y)  r == WinSize(e.size, n) \div 2
      num == [i \in 1..n |-> Abs(SlopeNum(e.y, i-1, r))]  sum == Total(num)  den == SlopeDen(r)
  IN IF Len(e.res) # n THEN "length"
     ELSE IF \E i \in 1..n : e.res[i] < 0 THEN "negative"
     ELSE IF e.norm = 1 /\ sum # 0
       THEN IF \A i \in 1..n : Abs(e.res[i] * sum - num[i] * n * Q) <= 2 * sum THEN "ok" ELSE "normalised-slope"
     ELSE IF \A i \in 1..n : Abs(e.res[i] * den - num[i] * Q) <= 2 * den THEN "ok" ELSE "slope"
Sorted(s) == \A i \in 1..Len(s)-1 : s[i] < s[i+1]
NearNode(e, p, u) == \* p (1/Q) is the refined position of the node i
   \E i \in May(e.y, e.opt, e.r, e.sens) :
     /\ Abs(p - i * Q) <= 2 * Q
     /\ SubPixOK(<<u[i], u[i+1], u[i+2]>>, "min", p - (i-1)*Q, Q, 3)
ExtClause(e) ==
  LET must == Must(e.y, e.opt, e.r, e.sens)  may == May(e.y, e.opt, e.r, e.sens)  u == Usable(e.y, e.opt) IN
  IF e.sub = 0
    THEN IF ~Sorted(e.res) THEN "order"
         ELSE IF must \ Rng(e.res) # {} THEN "missed-extremum"
         ELSE IF Rng(e.res) \ may # {} THEN "invented-extremum" ELSE "ok"
    ELSE IF Len(e.res) < Cardinality(must) THEN "missed-extremum"
         ELSE IF Len(e.res) > Cardinality(may) THEN "invented-extremum"
         ELSE IF \E z \in 1..Len(e.res) : ~NearNode(e, e.res[z], u) THEN "subpixel-position"
         ELSE "ok"
SameClause(e) == IF Len(e.A) # Len(e.B) THEN e.what
                 ELSE IF \E i \in 1..Len(e.A) : Abs(e.A[i] - e.B[i]) > e.tol THEN e.what ELSE "ok"
RECURSIVE SubSeqOf(_,_,_,_)
SubSeqOf(a, i, b, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
   ELSE IF a[i] = b[j] THEN SubSeqOf(a, i+1, b, j+1) ELSE SubSeqOf(a, i, b, j+1)
PeakClause(e) == IF ~SubSeqOf(e.res, 1, e.peaks, 1) THEN "not-a-selection"
   ELSE IF \E p \in Rng(e.good) : p \notin Rng(e.res) THEN "good-peak-lost"
   ELSE IF \E p \in Rng(e.wrong) : p \in Rng(e.res) THEN "bad-peak-kept" ELSE "ok"
FindClause(e) ==
   IF \E t \in Rng(e.truth) : ~(\E p \in Rng(e.res) : Abs(p - t) <= e.tol) THEN "missed-extremum"
   ELSE IF \E p \in Rng(e.res) : ~(\E t \in Rng(e.all) : Abs(p - t) <= e.tol) THEN "invented-extremum"
   ELSE "ok"
NSteps(e) == 1
Clause(e, z) ==
  IF e.op = "reject" THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF e.op = "sub" THEN SubClause(e) ELSE IF e.op = "slope" THEN SlopeClause(e)
  ELSE IF e.op = "ext" THEN ExtClause(e) ELSE IF e.op = "same" THEN SameClause(e)
  ELSE IF e.op = "peaks" THEN PeakClause(e) ELSE FindClause(e)
INSTANCE TraceBase
=============================================================================
