------------------------------- MODULE MC_Store -----------------------------
(***************************************************************************)
(* Design model: histories of saves, with and without overwriting, and of  *)
(* deletions by somebody else, over a small set of names that collide with *)
(* the numbered names.  TLC checks that a save without overwriting never   *)
(* replaces a file, that no other file ever changes, and that everything   *)
(* ever saved is still there unless it was deleted or overwritten on       *)
(* purpose under its very name.                                            *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils, SequencesExt
CONSTANTS Depth
Bases == {"a", "a_0000", "b"}
Saves == { [act |-> "save", kind |-> k, stem |-> s, ext |-> x, ow |-> o] :
             k \in {"hdf", "image"}, s \in Bases, x \in {".tif", ".hdf"}, o \in {TRUE, FALSE} }
Good == { q \in Saves : (q.kind = "image") => q.ext = ".tif" }
Dels == { [act |-> "del", kind |-> "-", stem |-> s, ext |-> ".hdf", ow |-> FALSE] : s \in {"a", "a_0000"} }
Ops == Good \cup Dels
VARIABLES fs, n, gone, last
vars == <<fs, n, gone, last>>
Init == fs = <<>> /\ n = 0 /\ gone = {} /\ last = [new |-> "", was |-> <<>>, ow |-> TRUE]
Save(q) == LET t == Target(DOMAIN fs, q.stem, FixExt(q.kind, q.ext), q.ow) IN
   /\ fs' = (t :> (n + 1)) @@ fs
   /\ gone' = IF t \in DOMAIN fs THEN gone \cup {fs[t]} ELSE gone
   /\ last' = [new |-> t, was |-> fs, ow |-> q.ow]
Del(q) == LET t == q.stem \o q.ext IN
   /\ t \in DOMAIN fs
   /\ fs' = [x \in DOMAIN fs \ {t} |-> fs[x]]
   /\ gone' = gone \cup {fs[t]}
   /\ last' = [new |-> "", was |-> fs, ow |-> TRUE]
Next == /\ n < Depth /\ n' = n + 1
        /\ \E q \in Ops : IF q.act = "save" THEN Save(q) ELSE Del(q)
Spec == Init /\ [][Next]_vars
NoClobber == (last.new # "" /\ ~last.ow) => last.new \notin DOMAIN last.was
OthersKept == last.new # "" => \A x \in DOMAIN last.was : x # last.new => x \in DOMAIN fs /\ fs[x] = last.was[x]
Ids == {fs[x] : x \in DOMAIN fs}
NothingLost == Ids \cap gone = {} /\ Cardinality(Ids) = Cardinality(DOMAIN fs)
ASSUME Glob("a*.tif", "a_0000.tif") /\ ~Glob("a*.tif", "b.tif") /\ Glob("?_*", "a_0000.tif") /\ ~Glob("a", "ab") /\ Glob("*", "")
ASSUME ndJsonSerialize(IOEnv.SCEN, LET o == SetToSeq(Ops) m == Len(o) IN
   [i \in 1..((m*m*m) \div 3) |-> LET z == 3*i - 1 IN <<o[1 + (z % m)], o[1 + ((z \div m) % m)], o[1 + ((z \div (m*m)) % m)], o[1 + ((z * 7) % m)]>>])
=============================================================================
