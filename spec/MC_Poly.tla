------------------------------- MODULE MC_Poly ------------------------------
(***************************************************************************)
(* Design model of growing a line from its middle.  A row is a set of      *)
(* occupied columns (spacing 4 units).  The dots in the middle window are  *)
(* the seed; then the windows on both sides move outwards by the search    *)
(* distance (with an overlap), taking what they meet, until both meet      *)
(* nothing.  TLC checks for every set of occupied columns that             *)
(*   only dots of the row are taken and none is ever lost,                 *)
(*   windows leave no strip unsearched,                                    *)
(*   a row whose gaps are within the admitted number of missing dots is    *)
(*   taken completely.                                                     *)
(* A selection of the rows is replayed on the code.                        *)
(***************************************************************************)
EXTENDS Fix, FiniteSets, TLC, Json, IOUtils, SequencesExt
NC == 13
Ms == 1..3
Overlaps == {0, 2, 4}                         \* quarters of the search distance
Sd(m) == 4 * m + 2
Mid == 4 * ((NC + 1) \div 2)
Seed(row, m) == {c \in row : 4*c >= Mid - Sd(m) /\ 4*c <= Mid + Sd(m)}
GapOK(row, m) == \A a \in row : \A b \in row : (a < b /\ ~\E c \in row : a < c /\ c < b) => b - a <= m
VARIABLES row, m, ov, got, xl, xr, at
vars == <<row, m, ov, got, xl, xr, at>>
Init == /\ m \in Ms /\ ov \in Overlaps /\ row \in SUBSET (1..NC)
        /\ {1, NC} \subseteq row /\ Cardinality(Seed(row, m)) >= 2
        /\ got = Seed(row, m) /\ at = "grow"
        /\ xl = 4 * MinOf(got) /\ xr = 4 * MaxOf(got)
o == (ov * Sd(m)) \div 4
Win == {c \in row : \/ (4*c > xr - o /\ 4*c <= xr + Sd(m) + o)
                    \/ (4*c < xl + o /\ 4*c >= xl - Sd(m) - o)}
Grow == /\ at = "grow" /\ Win # {}
        /\ got' = got \cup Win /\ xl' = xl - Sd(m) /\ xr' = xr + Sd(m) /\ UNCHANGED <<row, m, ov, at>>
Stop == at = "grow" /\ Win = {} /\ at' = "end" /\ UNCHANGED <<row, m, ov, got, xl, xr>>
Next == Grow \/ Stop
Spec == Init /\ [][Next]_vars
Within == got \subseteq row
\* everything between the limits of the search has been taken
NoHole == \A c \in row : (4*c <= xr /\ 4*c >= xl) => c \in got
Whole == (at = "end" /\ GapOK(row, m)) => got = row
Ends == at = "grow" => xr <= 4 * NC + 3 * Sd(m) + 4 * NC
Rows == {r \in SUBSET (1..NC) : {1, NC} \subseteq r /\ GapOK(r, 2) /\ Cardinality(r) <= 10}
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq(Rows) IN [n \in 1..(Len(q) \div 3) |-> [cols |-> SetToSeq(q[3*n])]])
=============================================================================
