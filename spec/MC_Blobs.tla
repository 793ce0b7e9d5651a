------------------------------ MODULE MC_Blobs ------------------------------
(***************************************************************************)
(* Design model of the selection of dots.  For every binary image of a     *)
(* small frame the objects are collected by growing (Pick, Grow, Close);   *)
(* the selection then keeps the objects of an admitted size (Judge).  TLC  *)
(* checks that the objects partition the image, that no two touch, that    *)
(* they are what the specification calls objects, and that a selection is  *)
(* a union of whole objects, idempotent and monotone in the limits.        *)
(* The images are replayed on the code.                                    *)
(***************************************************************************)
EXTENDS Blobs, TLC, Json, IOUtils, SequencesExt
H == 3  W == 4
Frame == (0..H-1) \X (0..W-1)
Imgs == SUBSET Frame
VARIABLES img, rest, cur, objs, lo, hi, kept, at
vars == <<img, rest, cur, objs, lo, hi, kept, at>>
Init == img \in Imgs /\ rest = img /\ cur = {} /\ objs = {} /\ lo = 0 /\ hi = 0 /\ kept = {} /\ at = "find"
First(A) == CHOOSE p \in A : \A q \in A : p[1]*W + p[2] <= q[1]*W + q[2]
Pick == at = "find" /\ cur = {} /\ rest # {} /\ cur' = {First(rest)} /\ rest' = rest \ {First(rest)} /\ UNCHANGED <<img, objs, lo, hi, kept, at>>
Edge == (UNION {N4(p) : p \in cur}) \cap rest
Grow == at = "find" /\ cur # {} /\ Edge # {} /\ cur' = cur \cup Edge /\ rest' = rest \ Edge /\ UNCHANGED <<img, objs, lo, hi, kept, at>>
Close == at = "find" /\ cur # {} /\ Edge = {} /\ objs' = objs \cup {cur} /\ cur' = {} /\ UNCHANGED <<img, rest, lo, hi, kept, at>>
Sel(O, a, b) == UNION {o \in O : Cardinality(o) >= a /\ Cardinality(o) <= b}
Judge == /\ at = "find" /\ cur = {} /\ rest = {} /\ at' = "end"
         /\ \E b \in {<<1,1>>, <<2,3>>, <<2,6>>, <<4,12>>} :
              lo' = b[1] /\ hi' = b[2] /\ kept' = Sel(objs, b[1], b[2])
         /\ UNCHANGED <<img, rest, cur, objs>>
Next == Pick \/ Grow \/ Close \/ Judge
Spec == Init /\ [][Next]_vars
Cover == UNION objs \cup cur \cup rest = img
Found == at = "end" => IsObjects(objs, img) /\ objs = Objects(img)
WholeKept == at = "end" => /\ \A o \in objs : o \subseteq kept \/ o \cap kept = {}
                           /\ Sel(Objects(kept), lo, hi) = kept
                           /\ kept \subseteq Sel(objs, lo - 1, hi + 1)
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq({m \in Imgs : Cardinality(m) > 2}) IN
   [n \in 1..(Len(q) \div 4) |-> LET o == SetToSeq(Objects(q[4*n])) IN [H |-> H, W |-> W, blobs |-> [i \in 1..Len(o) |-> SetToSeq(o[i])]]])
=============================================================================
