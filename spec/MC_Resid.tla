------------------------------ MODULE MC_Resid ------------------------------
(***************************************************************************)
(* Design model: a line grows dot by dot.  TLC checks for every line of    *)
(* the small world that the residuals add up to zero, that they vanish     *)
(* exactly for collinear dots, that they do not change when the line is    *)
(* shifted or mirrored, that no other straight line is closer in the sum   *)
(* of squares, and that the verdict is monotone.                           *)
(***************************************************************************)
EXTENDS Resid, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxLen
VR == {-2, 0, 1, 3}
VARIABLES l
vars == <<l>>
Init == l = <<>>
Add == Len(l) < MaxLen /\ \E u \in 1..2, v \in VR : l' = Append(l, <<(IF l = <<>> THEN 0 ELSE l[Len(l)][1]) + u, v>>)
Next == Add
Spec == Init /\ [][Next]_vars
Full == Len(l) >= 3
ZeroSum == Full => SumSeq([i \in 1..Len(l) |-> Off(l, i)]) = 0
Collinear == \A i, j, k \in 1..Len(l) : (l[j][1]-l[i][1])*(l[k][2]-l[i][2]) = (l[k][1]-l[i][1])*(l[j][2]-l[i][2])
ZeroIff == Full => (Collinear <=> \A i \in 1..Len(l) : Off(l, i) = 0)
Shift(a, b) == [i \in 1..Len(l) |-> <<l[i][1] + a, l[i][2] + b>>]
ShiftInv == Full => \A i \in 1..Len(l) : Off(Shift(3, -2), i) = Off(l, i)
Mirror == [i \in 1..Len(l) |-> <<l[i][1], -l[i][2]>>]
MirrorInv == Full => \A i \in 1..Len(l) : Off(Mirror, i) = - Off(l, i)
\* orthogonality of the least-squares residuals
Normal == Full => SumSeq([i \in 1..Len(l) |-> Off(l, i) * l[i][1]]) = 0
ASSUME \A n \in 1..60 : \A b \in 0..n-1 : Distorted(b, n) => Distorted(b + 1, n)
ASSUME ~Distorted(3, 20) /\ Distorted(4, 20) /\ ~Distorted(0, 5) /\ Distorted(1, 6) /\ ~Distorted(6, 40)
Lines(n) == [1..n -> VR]
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq(UNION {Lines(n) : n \in 2..5}) IN [i \in 1..Len(q) |-> [v |-> q[i]]])
=============================================================================
