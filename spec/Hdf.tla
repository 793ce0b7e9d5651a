--------------------------------- MODULE Hdf --------------------------------
(***************************************************************************)
(* Contents of hdf files: a stream of slices written in any order, slices  *)
(* read along any axis, and keys.  A value of the data set of shape        *)
(* <<a,b,c>> is identified by its position: 1 + (i*b + j)*c + k.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Val(sh, i, j, k) == 1 + (i * sh[2] + j) * sh[3] + k
\* slices selected by an index argument; ix: sequence of integers, int: given as one integer
RECURSIVE RangeSeq(_,_,_)
RangeSeq(a, b, st) == IF (st > 0 /\ a >= b) \/ (st < 0 /\ a <= b) \/ st = 0 THEN <<>> ELSE <<a>> \o RangeSeq(a + st, b, st)
Chosen(ix) == IF Len(ix) = 3 THEN RangeSeq(ix[1], ix[2], ix[3]) ELSE IF Len(ix) = 2 THEN RangeSeq(ix[1], ix[2], 1) ELSE ix
AxisOf(a) == IF a < 0 THEN 0 ELSE IF a > 2 THEN 2 ELSE a
Wrap(i, n) == IF i < 0 THEN i + n ELSE i
Valid(i, n) == i >= -n /\ i < n
\* values of one slice, row by row
Slice(sh, ax, i) ==
   IF ax = 0 THEN [z \in 1..(sh[2]*sh[3]) |-> Val(sh, i, (z-1) \div sh[3], (z-1) % sh[3])]
   ELSE IF ax = 1 THEN [z \in 1..(sh[1]*sh[3]) |-> Val(sh, (z-1) \div sh[3], i, (z-1) % sh[3])]
   ELSE [z \in 1..(sh[1]*sh[2]) |-> Val(sh, (z-1) \div sh[2], (z-1) % sh[2], i)]
SliceShape(sh, ax) == IF ax = 0 THEN <<sh[2], sh[3]>> ELSE IF ax = 1 THEN <<sh[1], sh[3]>> ELSE <<sh[1], sh[2]>>
\* a selection of several slices: shape and values in C order
SelShape(sh, ax, n) == [sh EXCEPT ![ax + 1] = n]
Select(sh, ax, q) == LET s == SelShape(sh, ax, Len(q)) IN
   [z \in 1..(s[1]*s[2]*s[3]) |->
      LET i == (z-1) \div (s[2]*s[3])  j == ((z-1) \div s[3]) % s[2]  k == (z-1) % s[3] IN
      IF ax = 0 THEN Val(sh, q[i+1], j, k) ELSE IF ax = 1 THEN Val(sh, i, q[j+1], k) ELSE Val(sh, i, j, q[k+1])]
\* slices of a stream after a history of writes <<slot, data>>; never written: 0
RECURSIVE Slot(_,_)
Slot(w, s) == IF w = <<>> THEN 0 ELSE LET l == w[Len(w)] IN IF l[1] = s THEN l[2] ELSE Slot(SubSeq(w, 1, Len(w) - 1), s)
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
=============================================================================
