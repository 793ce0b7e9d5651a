-------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The directory the savers write to.  A file system is a set of names;    *)
(* names are strings dir \o stem \o ext.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
HdfExt == {".hdf", ".h5", ".nxs", ".hdf5", ".HDF", ".H5", ".NXS", ".Hdf"}
\* extension a writer turns e into
FixExt(kind, e) ==
  IF kind \in {"hdf", "stream"} THEN (IF e \in HdfExt THEN e ELSE ".hdf")
  ELSE IF kind = "txt" THEN (IF e \in {".txt", ".dat", ".TXT", ".DAT"} THEN e ELSE ".txt")
  ELSE IF kind = "json" THEN (IF e \in {".json", ".JSON"} THEN e ELSE ".json")
  ELSE IF kind = "pkl" THEN (IF e \in {".pkl", ".PKL"} THEN e ELSE ".pkl")
  ELSE e
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
Numbered(base, ext, n) == base \o "_" \o Pad4(n) \o ext
RECURSIVE FirstFree(_,_,_,_)
FirstFree(fs, base, ext, n) == IF Numbered(base, ext, n) \in fs THEN FirstFree(fs, base, ext, n + 1) ELSE Numbered(base, ext, n)
Target(fs, base, ext, ow) == IF ow \/ base \o ext \notin fs THEN base \o ext ELSE FirstFree(fs, base, ext, 0)
\* names matching a pattern with * and ?
RECURSIVE Glob(_,_)
Glob(p, s) ==
  IF Len(p) = 0 THEN Len(s) = 0
  ELSE LET c == SubSeq(p, 1, 1)  p1 == SubSeq(p, 2, Len(p)) IN
       IF c = "*" THEN \E i \in 0..Len(s) : Glob(p1, SubSeq(s, i + 1, Len(s)))
       ELSE IF Len(s) = 0 THEN FALSE
       ELSE (c = "?" \/ c = SubSeq(s, 1, 1)) /\ Glob(p1, SubSeq(s, 2, Len(s)))
=============================================================================
