------------------------------- MODULE T_Store ------------------------------
(***************************************************************************)
(* Trace specification: recorded histories of savers and loaders in a      *)
(* scratch directory.  Every step carries the listing after it: names and  *)
(* a number identifying the bytes of each file; the listing before it is   *)
(* that of the previous step.                                              *)
(*   save   kind, base (dir \o stem), ext, ow, data; ret: returned name;   *)
(*          got: the data identified by loading the returned file          *)
(*   bad    a call that must fail: nothing may change                      *)
(*   put    a file created by somebody else;  del  deleted;  mkdir  a      *)
(*          directory takes the name (dirs: all such directories)         *)
(*   load   name; got: the data loaded                                     *)
(*   find   dir, pat; got: names found                                     *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Names(l) == {l[i].n : i \in 1..Len(l)}
Bytes(l, x) == (CHOOSE i \in 1..Len(l) : l[i].n = x)
Dirs(e, i) == IF i = 1 THEN {} ELSE {e.steps[i-1].dirs[j] : j \in 1..Len(e.steps[i-1].dirs)}
Before(e, i) == IF i = 1 THEN <<>> ELSE e.steps[i-1].ls
Unchanged(a, b, except) == \A x \in Names(a) \ except : x \in Names(b) /\ b[Bytes(b, x)].c = a[Bytes(a, x)].c
SaveClause(s, was, dirs) ==
  LET x == FixExt(s.kind, s.ext)  t == Target(Names(was) \cup dirs, s.base, x, s.ow) IN
  IF t \in dirs THEN      \* a directory has that name: nothing is written
     IF s.out # "ok" /\ Unchanged(was, s.ls, {}) /\ Names(s.ls) = Names(was) THEN "ok" ELSE "directory-overwritten"
  ELSE IF s.out # "ok" THEN "save-failed"
  ELSE IF ~Unchanged(was, s.ls, IF s.ow THEN {t} ELSE {}) THEN "other-file-changed"
  ELSE IF s.ret # t THEN "returned-name"
  ELSE IF Names(s.ls) # Names(was) \cup {t} THEN "files-created"
  ELSE IF s.got # s.data THEN "content" ELSE "ok"
\* last data saved under that name, 0 if somebody else's
RECURSIVE Content(_,_,_)
Content(e, i, x) == IF i = 0 THEN 0 ELSE LET s == e.steps[i] IN
   IF s.act = "save" /\ s.ret = x THEN s.data ELSE IF s.act \in {"put", "del"} /\ s.name = x THEN 0 ELSE Content(e, i-1, x)
LoadClause(e, i, s, was) ==
  IF s.name \in Dirs(e, i) THEN (IF s.out = "ok" THEN "directory-loaded" ELSE "ok") ELSE
  IF ~(Unchanged(was, s.ls, {}) /\ Names(s.ls) = Names(was)) THEN "load-changes-files"
  ELSE IF s.name \notin Names(was) THEN (IF s.out = "raise:ValueError" THEN "ok" ELSE "missing-file-not-rejected")
  ELSE IF Content(e, i-1, s.name) = 0 THEN "ok"
  ELSE IF s.out # "ok" THEN "load-failed" ELSE IF s.got # Content(e, i-1, s.name) THEN "loaded-content" ELSE "ok"
FindClause(s, was) ==
  LET all == s.entries
      want == SelectSeq(all, LAMBDA x : Glob(s.pat, x)) IN
  IF ~(Unchanged(was, s.ls, {}) /\ Names(s.ls) = Names(was)) THEN "find-changes-files"
  ELSE IF Len(want) = 0 THEN (IF s.out = "raise:FileNotFoundError" THEN "ok" ELSE "nothing-found-not-reported")
  ELSE IF s.out # "ok" THEN "find-failed" ELSE IF s.got = want THEN "ok" ELSE "found-names"
NSteps(e) == Len(e.steps)
Clause(e, i) ==
  LET s == e.steps[i]  was == Before(e, i) IN
  IF s.act = "save" THEN SaveClause(s, was, Dirs(e, i))
  ELSE IF s.act = "bad" THEN (IF s.out = "ok" THEN "not-rejected"
         ELSE IF Unchanged(was, s.ls, {}) /\ Names(s.ls) = Names(was) THEN "ok" ELSE "failed-call-changes-files")
  ELSE IF s.act = "load" THEN LoadClause(e, i, s, was)
  ELSE IF s.act = "find" THEN FindClause(s, was)
  ELSE "ok"
INSTANCE TraceBase
=============================================================================
