------------------------------ MODULE MC_Points -----------------------------
(***************************************************************************)
(* Design model of the parabola mask: the pixels of small frames are       *)
(* scanned one by one.  TLC checks the symmetries of the mask, that it     *)
(* shrinks with growing margins and curviness, that it lies within the     *)
(* margins, that on the middle column and row it is the plain rectangle,   *)
(* and that removing a set of points twice removes nothing more.           *)
(***************************************************************************)
EXTENDS PointSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Sizes
Curv == {-32, 0, 16, 40, 96}
Marg == { <<0,0,0,0>>, <<1,1,1,1>>, <<2,0,1,0>>, <<3,1,0,2>>, <<0,4,3,1>> }
VARIABLES c, n, mask
vars == <<c, n, mask>>
Cases == [h : Sizes, w : Sizes, hc : Curv, vc : Curv, mg : Marg]
Init == c \in Cases /\ ~BadMargins(c.h, c.w, c.mg) /\ n = 0 /\ mask = {}
W(y, x) == Where(y, x, c.h, c.w, c.hc, c.vc, c.mg)
Scan == /\ n < c.h /\ n' = n + 1
        /\ mask' = mask \cup {p \in {n} \X (0..c.w-1) : W(p[1], p[2]) = "in"}
        /\ UNCHANGED c
Spec == Init /\ [][Scan]_vars
End == n = c.h
\* pixel y and pixel height - y lie symmetrically
Sym == End => \A p \in (1..c.h-1) \X (1..c.w-1) :
   /\ Where(p[1], p[2], c.h, c.w, c.hc, c.vc, c.mg) = Where(c.h - p[1], p[2], c.h, c.w, c.hc, c.vc, <<c.mg[2], c.mg[1], c.mg[3], c.mg[4]>>)
   /\ Where(p[1], p[2], c.h, c.w, c.hc, c.vc, c.mg) = Where(p[2], p[1], c.w, c.h, c.vc, c.hc, <<c.mg[3], c.mg[4], c.mg[1], c.mg[2]>>)
Inside == (c.vc >= 0 /\ c.hc >= 0) => \A p \in mask : p[1] > c.mg[1] /\ p[1] < c.h - c.mg[2] /\ p[2] > c.mg[3] /\ p[2] < c.w - c.mg[4]
Shrinks == End => \A p \in mask : Where(p[1], p[2], c.h, c.w, c.hc - 8, c.vc - 8, [i \in 1..4 |-> c.mg[i] - 1]) = "in"
Flat == (End /\ c.vc = 0 /\ c.hc = 0) => mask = {p \in (0..c.h-1) \X (0..c.w-1) : p[1] > c.mg[1] /\ p[1] < c.h - c.mg[2] /\ p[2] > c.mg[3] /\ p[2] < c.w - c.mg[4]}
ASSUME \A s \in [1..3 -> {1,2,3}], R \in SUBSET {1,2,3} : Without(Without(s, R), R) = Without(s, R) /\ \A i \in 1..Len(Without(s, R)) : Without(s, R)[i] \notin R
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq(Cases) IN [i \in 1..Len(q) |-> q[i]])
=============================================================================
