----------------------------- MODULE MC_Inverse -----------------------------
(***************************************************************************)
(* Design model of "forward" and "backward" models being inverses of each  *)
(* other.  A radius is carried through the model and back (Go, Back); TLC  *)
(* checks, on a grid of models, that the radius map is strictly monotone   *)
(* on the working range (so the inverse is a function) and that going and  *)
(* returning is the identity up to rounding.  The models are the scenarios *)
(* replayed on transform_coef_backward_and_forward.                        *)
(***************************************************************************)
EXTENDS Warp, TLC, Json, IOUtils, FiniteSets, SequencesExt
A == {58, 64, 70}
B == {-4, 0, 3}
C == {-5, 0, 4}
D == {-2, 2}
KSet == { <<a>> : a \in A } \cup { <<a,b>> : a \in A, b \in B }
        \cup { <<a,b,c>> : a \in A, b \in B, c \in C }
        \cup { <<a,b,c,d>> : a \in A, b \in B, c \in C, d \in D }
        \cup { <<64,b,c,d,e>> : b \in B, c \in C, d \in D, e \in D }
KSeq == SetToSeq(KSet)
ASSUME ndJsonSerialize(IOEnv.SCEN, [n \in 1..Len(KSeq) |-> [K64 |-> KSeq[n]]])

VARIABLES n, t, r, dir
vars == <<n, t, r, dir>>
M == [R |-> 1, xc |-> 0, yc |-> 0, K |-> [i \in 1..Len(KSeq[n]) |-> KSeq[n][i] * (S \div 64)]]
Step == S \div 8
Init == n \in 1..Len(KSeq) /\ t = 0 /\ r = 0 /\ dir = "given"
Go   == dir = "given" /\ r' = RadMap(M, t * Step) /\ dir' = "mapped" /\ UNCHANGED <<n, t>>
Back == dir = "mapped" /\ r' = InvBis(M, r, 0, S + S \div 2, 27) /\ dir' = "returned" /\ UNCHANGED <<n, t>>
More == dir = "returned" /\ t < 8 /\ t' = t + 1 /\ r' = (t+1) * Step /\ dir' = "given" /\ UNCHANGED n
Next == Go \/ Back \/ More
Spec == Init /\ [][Next]_vars
Physical == dir = "mapped" => RadMap(M, t * Step) < RadMap(M, (t+1) * Step)
RoundTrip == dir = "returned" => Near(r, t * Step, 8)
=============================================================================
