-------------------------------- MODULE T_Hdf -------------------------------
(***************************************************************************)
(* Trace specification: recorded reads of hdf files.                       *)
(*  "int"     one slice: e.ix                                              *)
(*  "many"    e.ix as tuple or list                                        *)
(*  "all"     index not given                                              *)
(*  "two"     two-dimensional data set, shape e.sh, values 1, 2, ...       *)
(*  "auto"    key not given: e.tree lists the objects in order as records  *)
(*            [k: key, d: 1 for a data set, id, img: 1 if it can be an     *)
(*            image]; e.id: data set returned                              *)
(*  "info"    e.tree; e.keys listed, with e.shapes; e.pat, e.found;        *)
(*            e.show: display asked for, e.said: lines printed, e.lines:   *)
(*            entries that have a line with key, shape and type            *)
(*  "reject"  must be a ValueError                                         *)
(***************************************************************************)
EXTENDS Hdf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
IsErr(o) == o # "ok" /\ o # "hang"
Got(e, shape, vals) == IF e.oshape # shape THEN "shape" ELSE IF e.vals # vals THEN "values" ELSE "ok"
IntClause(e) == LET ax == AxisOf(e.ax)  n == e.sh[ax+1] IN
   IF ~Valid(e.ix, n) THEN (IF IsErr(e.out) THEN "ok" ELSE "out-of-range-not-rejected")
   ELSE IF e.out # "ok" THEN "outcome" ELSE Got(e, SliceShape(e.sh, ax), Slice(e.sh, ax, Wrap(e.ix, n)))
ManyClause(e) == LET ax == AxisOf(e.ax)  n == e.sh[ax+1]  q == Chosen(e.ix)
                     ok == \A i \in 1..Len(q) : q[i] >= 0 /\ q[i] < n
                     up == \A i \in 1..Len(q)-1 : q[i] < q[i+1] IN
   IF Len(q) = 0 THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "empty-not-rejected")
   ELSE IF ~ok \/ ~up THEN (IF IsErr(e.out) THEN "ok"
        ELSE IF \E i \in 1..Len(q) : ~Valid(q[i], n) THEN "out-of-range-not-rejected"
        ELSE LET v == [i \in 1..Len(q) |-> Wrap(q[i], n)] IN
             IF Len(q) = 1 THEN Got(e, SliceShape(e.sh, ax), Slice(e.sh, ax, v[1])) ELSE Got(e, SelShape(e.sh, ax, Len(q)), Select(e.sh, ax, v)))
   ELSE IF e.out # "ok" THEN "outcome"
   ELSE IF Len(q) = 1 THEN Got(e, SliceShape(e.sh, ax), Slice(e.sh, ax, q[1]))
   ELSE Got(e, SelShape(e.sh, ax, Len(q)), Select(e.sh, ax, q))
RECURSIVE Prod(_,_)
Prod(s, i) == IF i = 0 THEN 1 ELSE s[i] * Prod(s, i-1)
Iota(s) == [z \in 1..Prod(s, Len(s)) |-> z]
\* first group (in order) that holds a data set named "data"
Groups(e) == {i \in 1..Len(e.tree) : e.tree[i].d = 0 /\ \E j \in 1..Len(e.tree) : e.tree[j].d = 1 /\ e.tree[j].k = e.tree[i].k \o "/data"}
AutoClause(e) == IF Groups(e) = {} THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "no-key-not-rejected")
   ELSE LET g == CHOOSE i \in Groups(e) : \A j \in Groups(e) : i <= j
            d == CHOOSE j \in 1..Len(e.tree) : e.tree[j].k = e.tree[g].k \o "/data"
        IN IF e.tree[d].img = 0 THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "no-image-not-rejected")
           ELSE IF e.out # "ok" THEN "outcome"
           ELSE IF e.id = e.tree[d].id THEN "ok" ELSE "wrong-dataset"
Keys(l) == {l[i] : i \in 1..Len(l)}
InfoClause(e) ==
  LET Leaf(i) == ~\E j \in 1..Len(e.tree) : Len(e.tree[j].k) > Len(e.tree[i].k) /\ SubSeq(e.tree[j].k, 1, Len(e.tree[i].k) + 1) = e.tree[i].k \o "/"
      ds == {i \in 1..Len(e.tree) : e.tree[i].d = 1 \/ Leaf(i)}      \* data sets and empty groups
      all == {e.tree[i].k : i \in 1..Len(e.tree)} IN
  IF Len(e.keys) # Len(e.ids) \/ Len(e.found) # Len(e.fids) THEN "lists-differ-in-length"
  ELSE IF \E i \in ds : e.tree[i].k \notin Keys(e.keys) THEN "object-not-listed"
  ELSE IF Keys(e.keys) \ all # {} THEN "key-invented"
  ELSE IF \E j \in 1..Len(e.keys) : LET t == CHOOSE i \in 1..Len(e.tree) : e.tree[i].k = e.keys[j] IN e.ids[j] # e.tree[t].id THEN "shape-or-type"
  ELSE IF \E i \in ds : Contains(e.tree[i].k, e.pat) /\ e.tree[i].k \notin Keys(e.found) THEN "match-not-found"
  ELSE IF \E x \in Keys(e.found) : x \notin all \/ ~(Contains(x, e.pat) \/ Contains("/" \o x, e.pat)) THEN "no-match"
  ELSE IF \E j \in 1..Len(e.found) : LET t == CHOOSE i \in 1..Len(e.tree) : e.tree[i].k = e.found[j] IN e.fids[j] # e.tree[t].id THEN "shape-or-type"
  ELSE IF \E i \in 1..2 : LET n == IF i = 1 THEN Len(e.keys) ELSE Len(e.found) IN
            IF e.show[i] = 0 THEN e.said[i] # 0
            ELSE e.lines[i] # n \/ (n > 0 /\ e.said[i] # n) \/ (n = 0 /\ e.said[i] = 0) THEN "display"
  ELSE "ok"
NSteps(e) == 1
Clause(e, z) ==
  IF e.op = "reject" THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF e.op = "int" THEN IntClause(e) ELSE IF e.op = "many" THEN ManyClause(e)
  ELSE IF e.op = "auto" THEN AutoClause(e)
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF e.op \in {"all", "two"} THEN Got(e, e.sh, Iota(e.sh)) ELSE InfoClause(e)
INSTANCE TraceBase
=============================================================================
