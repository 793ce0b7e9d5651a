------------------------------ MODULE MC_Group ------------------------------
(***************************************************************************)
(* Design model of the grouping.  An environment builds a grid: rows of    *)
(* dots, tilted, each row slightly displaced, with missing dots.  The      *)
(* grouping then picks the left-most dot that is left (Start), extends the *)
(* line dot by dot (Take, Skip) and puts it aside (Finish).  TLC checks    *)
(*   every dot is in exactly one place at any time,                        *)
(*   lines advance along x, neighbours being on the line,                  *)
(*   rows further apart than the admitted offset are recovered whole,      *)
(*   the machine computes the function Group of the specification.         *)
(* Every grid is a scenario for the code.                                  *)
(***************************************************************************)
EXTENDS Grouping, TLC, Json, IOUtils, SequencesExt
NR == 3  NC == 4
Pitch == 40 * 256
Tilts == {0, 205, -410, 819}               \* 1/4096
Jits == { <<0,0,0,0>>, <<3,-4,5,-2>>, <<-7,6,0,7>>, <<2,9,-8,3>>, <<11,-2,4,-9>> }  \* 1/16 pitch..., per column
Misses == { {}, {<<2,2>>}, {<<1,1>>}, {<<2,2>>,<<2,3>>}, {<<3,3>>,<<1,2>>}, {<<3,2>>,<<3,3>>,<<3,4>>} }
GoodR == {77, 51}                            \* ratio/256
Cfgs == { [t |-> t, j |-> j, x |-> x, r |-> r, m |-> m] : t \in Tilts, j \in Jits, x \in Misses, r \in GoodR, m \in {1, 2, 6} }
Cfg == SetToSeq(Cfgs)
Cells(c) == SetToSeq({ <<i, j>> \in (1..NR) \X (1..NC) : <<i, j>> \notin c.x })
\* x differs between rows a little, so that the order along x is strict
Dot_(c, q) == LET x == q[2] * Pitch + q[1] * 331 + ((q[1] * q[2]) % 3) * 57
                  y == q[1] * Pitch + (c.j[q[2]] * (q[1] + 1) * Pitch) \div 256
              IN << y + (c.t * x) \div 4096, x >>
Dots(c) == LET s == Cells(c) IN [i \in 1..Len(s) |-> Dot_(c, s[i])]
G(c) == [s |-> c.t * LB, d |-> Pitch, w |-> (c.r * Pitch) \div 256, m |-> c.m]
ASSUME ndJsonSerialize(IOEnv.SCEN, [n \in 1..Len(Cfg) |->
    [P |-> Dots(Cfg[n]), s |-> G(Cfg[n]).s, d |-> Pitch, r |-> Cfg[n].r, m |-> Cfg[n].m]])

VARIABLES n, P, todo, left, line, lines, at
vars == <<n, P, todo, left, line, lines, at>>
Init == /\ n \in 1..Len(Cfg) /\ P = Dots(Cfg[n])
        /\ todo = SortX(P, Len(P)) /\ left = <<>> /\ line = <<>> /\ lines = <<>> /\ at = "pick"
g == G(Cfg[n])
Start == /\ at = "pick" /\ Len(todo) >= 2
         /\ line' = <<Head(todo)>> /\ todo' = Tail(todo) /\ left' = <<>> /\ at' = "walk"
         /\ UNCHANGED <<n, P, lines>>
Fits == OnLine(P[line[Len(line)]], P[Head(todo)], g)
Take == at = "walk" /\ todo # <<>> /\ Fits /\ line' = Append(line, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<n, P, left, lines, at>>
Skip == at = "walk" /\ todo # <<>> /\ ~Fits /\ left' = Append(left, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<n, P, line, lines, at>>
Finish == /\ at = "walk" /\ todo = <<>>
          /\ lines' = IF Len(line) > 1 THEN Append(lines, line) ELSE lines
          /\ todo' = left /\ left' = <<>> /\ line' = <<>> /\ at' = "pick" /\ UNCHANGED <<n, P>>
End == at = "pick" /\ Len(todo) < 2 /\ at' = "end" /\ UNCHANGED <<n, P, todo, left, line, lines>>
Next == Start \/ Take \/ Skip \/ Finish \/ End
Spec == Init /\ [][Next]_vars

Occ(i, s) == Cardinality({k \in 1..Len(s) : s[k] = i})
Once == \A i \in 1..Len(P) : LET c == Occ(i, todo) + Occ(i, left) + Occ(i, line)
            + Cardinality({<<a, b>> \in (1..Len(lines)) \X (1..Len(P)) : b <= Len(lines[a]) /\ lines[a][b] = i})
          IN c <= 1
Chain(l) == \A k \in 1..Len(l)-1 : P[l[k]][2] < P[l[k+1]][2] /\ OnLine(P[l[k]], P[l[k+1]], g)
Chains == Chain(line) /\ \A a \in 1..Len(lines) : Chain(lines[a])
Row(i) == CHOOSE r \in 1..NR : \E q \in 1..NC : Dot_(Cfg[n], <<r, q>>) = P[i]
\* rows kept apart: any two dots of different rows are not on one line, any two
\* neighbours of the same row are
Clean == /\ \A i \in 1..Len(P) : \A k \in 1..Len(P) : Row(i) # Row(k) => ~OnLine(P[i], P[k], g)
         /\ \A i \in 1..Len(P) : \A k \in 1..Len(P) :
              (Row(i) = Row(k) /\ P[i][2] < P[k][2] /\ ~\E z \in 1..Len(P) : Row(z) = Row(i) /\ P[i][2] < P[z][2] /\ P[z][2] < P[k][2])
                 => OnLine(P[i], P[k], g)
RowsWhole == (at = "end" /\ Clean) =>
   \A r \in 1..NR : LET d == {i \in 1..Len(P) : Row(i) = r} IN
      Cardinality(d) > 1 => \E a \in 1..Len(lines) : {lines[a][z] : z \in 1..Len(lines[a])} = d
IsGroup == at = "end" => lines = Lines(P, g, SortX(P, Len(P)), <<>>)
=============================================================================
