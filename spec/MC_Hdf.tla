-------------------------------- MODULE MC_Hdf ------------------------------
(***************************************************************************)
(* Design model of an hdf stream: slices are written in any order, some    *)
(* twice, the file is closed and read again along any axis.  TLC checks    *)
(* that the last write wins, that untouched slices stay zero, and that     *)
(* selecting slices commutes with the axis: every selected value is that   *)
(* of its own position, a one-slice selection is the slice.                *)
(***************************************************************************)
EXTENDS Hdf, Json, IOUtils, SequencesExt
CONSTANTS Slots, Depth
VARIABLES w, mem, open
vars == <<w, mem, open>>
Init == w = <<>> /\ mem = [s \in Slots |-> 0] /\ open = TRUE
Write == open /\ Len(w) < Depth /\ \E s \in Slots, d \in 1..2 :
            /\ w' = Append(w, <<s, d>>) /\ mem' = [mem EXCEPT ![s] = d] /\ UNCHANGED open
Close == open /\ open' = FALSE /\ UNCHANGED <<w, mem>>
Next == Write \/ Close
Spec == Init /\ [][Next]_vars
LastWins == \A s \in Slots : Slot(w, s) = mem[s]
Untouched == \A s \in Slots : (\A i \in 1..Len(w) : w[i][1] # s) => mem[s] = 0
Shapes == {<<2,3,4>>, <<1,3,2>>, <<3,1,2>>, <<2,2,1>>}
ASSUME \A sh \in Shapes, ax \in 0..2 : \A i \in 0..sh[ax+1]-1 : Select(sh, ax, <<i>>) = Slice(sh, ax, i)
ASSUME \A sh \in Shapes, ax \in 0..2 : LET n == sh[ax+1] q == RangeSeq(0, n, 1) s == Select(sh, ax, q) IN s = [z \in 1..(sh[1]*sh[2]*sh[3]) |-> z]
ASSUME RangeSeq(1, 6, 2) = <<1, 3, 5>> /\ Chosen(<<0, 2>>) = <<0, 1>> /\ Chosen(<<0, 2, 4, 5>>) = <<0, 2, 4, 5>>
Idx == {<<0>>, <<2>>, <<-1>>} \cup {<<a, b>> : a \in 0..2, b \in 1..4} \cup {<<a, b, st>> : a \in 0..1, b \in 2..5, st \in 1..3} \cup {<<0,1,2,3>>}
Wr == UNION {[1..n -> Slots \X {1,2}] : n \in 0..3}
ASSUME ndJsonSerialize(IOEnv.SCEN,
   LET q == SetToSeq(Wr)
       r == SetToSeq({<<sh, ax, ix>> : sh \in Shapes \cup {<<4,3,5>>}, ax \in 0..2, ix \in Idx})
   IN [i \in 1..Len(q) |-> [what |-> "stream", w |-> q[i]]] \o [i \in 1..Len(r) |-> [what |-> "read", sh |-> r[i][1], ax |-> r[i][2], ix |-> r[i][3]]])
=============================================================================
