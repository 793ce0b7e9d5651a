------------------------------ MODULE MC_Proj -------------------------------
(***************************************************************************)
(* Design model of the perspective correction: a node of a grid is seen    *)
(* through a perspective map (View) and corrected by the inverse map       *)
(* (Correct).  TLC checks, for every map of the lattice and every node,    *)
(*   Undone    correcting restores the node                                *)
(*   LineKept  three collinear nodes are seen collinear                    *)
(*   Unfolded  the view keeps the order of nodes along rows and columns    *)
(* The grids and their views are the inputs replayed on the code.          *)
(***************************************************************************)
EXTENDS Projective, TLC, Json, IOUtils, FiniteSets, SequencesExt
R == 1024
u == S \div R
\* rotation/shear, scale, translation and horizon terms, in 1/1024ths
Rots == { <<1024, 0, 0, 1024>>, <<1010, -60, 72, 990>>, <<1100, 90, -40, 1060>> }
Trs  == { <<0, 0>>, <<90, -70>> }
Hors == { <<0, 0>>, <<120, 0>>, <<0, -140>>, <<-90, 110>>, <<200, 150>> }
Cs == { [r |-> r, t |-> t, h |-> h] : r \in Rots, t \in Trs, h \in Hors }
CSeq == SetToSeq(Cs)
f(v) == v * (S \div 1024)
Coef(z) == << f(z.r[1]), f(z.r[2]), f(z.t[1]), f(z.r[3]), f(z.r[4]), f(z.t[2]), f(z.h[1]), f(z.h[2]) >>
NR == 4
NC == 5
GNode(i, j) == << (100 + 190 * i) * u, (80 + 180 * j) * u >>
Views == [n \in 1..Len(CSeq) |-> [i \in 1..NR |-> [j \in 1..NC |-> Proj(Coef(CSeq[n]), GNode(i-1, j-1))]]]
Nodes == [i \in 1..NR |-> [j \in 1..NC |-> GNode(i-1, j-1)]]
ASSUME ndJsonSerialize(IOEnv.SCEN, [n \in 1..Len(CSeq) |->
   [R |-> R, c |-> Coef(CSeq[n]), nodes |-> Nodes, view |-> Views[n]]])

VARIABLES n, i, j, at, pos
vars == <<n, i, j, at, pos>>
Init == n \in 1..Len(CSeq) /\ i \in 1..NR /\ j \in 1..NC /\ at = "scene" /\ pos = Nodes[i][j]
View == at = "scene" /\ at' = "view" /\ pos' = Proj(Coef(CSeq[n]), pos) /\ UNCHANGED <<n, i, j>>
Correct == at = "view" /\ at' = "corrected" /\ pos' = Proj(InverseC(Coef(CSeq[n])), pos) /\ UNCHANGED <<n, i, j>>
Next == View \/ Correct
Spec == Init /\ [][Next]_vars
Seen(a, b) == Views[n][a][b]
Undone == at = "corrected" => NearPt(pos, Nodes[i][j], 200)
Cross(a, b, c) == FMul(b[2]-a[2], c[1]-a[1]) - FMul(b[1]-a[1], c[2]-a[2])
LineKept == at = "scene" => /\ (j <= NC-2 => Abs(Cross(Seen(i,j), Seen(i,j+1), Seen(i,j+2))) <= 40)
                            /\ (i <= NR-2 => Abs(Cross(Seen(i,j), Seen(i+1,j), Seen(i+2,j))) <= 40)
Unfolded == at = "view" => /\ (j < NC => Seen(i,j)[2] < Seen(i,j+1)[2])
                           /\ (i < NR => Seen(i,j)[1] < Seen(i+1,j)[1])
=============================================================================
