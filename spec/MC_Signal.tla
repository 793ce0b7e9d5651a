------------------------------ MODULE MC_Signal -----------------------------
(***************************************************************************)
(* Design model of the scan for local extrema: a window moves over every   *)
(* small signal, position by position.  TLC checks that the scan finds     *)
(* what the declarative law says, that every minimum is found in the       *)
(* mirrored signal and in a brighter one, that minima and maxima are dual, *)
(* that a unique lowest point is never missed (this includes the last      *)
(* position whose window is complete), that two results closer than the    *)
(* radius have equal values, and the laws of slopes and parabolas.         *)
(***************************************************************************)
EXTENDS Signal, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Levels, Sens
Sigs == [1..N -> Levels]
VARIABLES y, r, i, found
vars == <<y, r, i, found>>
Init == y \in Sigs /\ r \in {1, 2} /\ i = r /\ found = {}
Scan == /\ i < N - r
        /\ i' = i + 1
        /\ found' = IF MinAt(y, i, r, Sens) = "yes" THEN found \cup {i} ELSE found
        /\ UNCHANGED <<y, r>>
Spec == Init /\ [][Scan]_vars
End == i = N - r
Rev(s) == [z \in 1..N |-> s[N + 1 - z]]
Neg(s) == [z \in 1..N |-> 20 - s[z]]
ScanIsLaw == End => found = Must(y, "min", r, Sens)
Mirrored == End => Must(Rev(y), "min", r, Sens) = {N - 1 - p : p \in found}
Scaled == End => Must([z \in 1..N |-> 3 * y[z]], "min", r, Sens) = found
Dual == End => /\ Must(y, "max", r, Sens) = Must(Flipped(y), "min", r, Sens)
               /\ Must(Neg(y), "max", r, Sens) = Must([z \in 1..N |-> y[z] - Best(y, "min")], "min", r, Sens)
Distinct == \A p, q \in found : (p # q /\ Abs(p - q) <= r) => y[p+1] = y[q+1]
\* a strict lowest point with enough contrast, anywhere its window is complete, is found
NotMissed == End => \A p \in r..(N-1-r) :
   ((\A z \in 1..N : z # p + 1 => y[z] > y[p+1]) /\ 64 * (TopSum(y, p, r) - r * y[p+1]) > Sens * TopSum(y, p, r)) => p \in found
\* slopes: mirrored sign, constant and linear signals
SlopeLaw == End => \A p \in 0..N-1 :
   /\ SlopeNum(Rev(y), N - 1 - p, r) = -SlopeNum(y, p, r)
   /\ (Cardinality({y[z] : z \in 1..N}) = 1 => SlopeNum(y, p, r) = 0)
RampLaw == End => \A p \in r..N-1-r : SlopeNum([z \in 1..N |-> 5 * z], p, r) = 5 * SlopeDen(r)
\* the vertex of three values around a strict minimum lies within half a pixel of it
VertexLaw == End => \A p \in 1..N-2 :
   LET t == <<y[p], y[p+1], y[p+2]>> IN (t[2] < t[1] /\ t[2] < t[3]) =>
     /\ CurvNum(t) > 0
     /\ \E q \in {x \in 32..96 : TRUE} : SubPixOK(t, "min", q, 64, 1)
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq(Sigs) IN
   [n \in 1..(Len(q) \div 5) |-> [y |-> q[5*n], r |-> 1 + (n % 3), opt |-> IF n % 2 = 0 THEN "min" ELSE "max", sens |-> (n % 4) * 5]])
=============================================================================
