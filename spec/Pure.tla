-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* A library without memory: what a call gives depends on its arguments    *)
(* only, and a call changes neither its arguments nor the settings of the  *)
(* process (random generators, error and warning settings, plot settings,  *)
(* open figures, working directory and its files).                         *)
(* A history is a sequence of finished calls                               *)
(*    [id, r: result, alone: result of the same call in a process of its   *)
(*     own, r1: the result at the end of the history,                      *)
(*     a0, a1: arguments before and after,                                 *)
(*     w0, w1: settings before and after]                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
StepClause(h, i) ==
  IF h[i].a0 # h[i].a1 THEN "argument-changed"
  ELSE IF h[i].w0 # h[i].w1 THEN "settings-changed"
  ELSE IF \E j \in 1..i-1 : h[j].id = h[i].id /\ h[j].r # h[i].r THEN "result-depends-on-history"
  ELSE IF h[i].r # h[i].alone THEN "result-not-that-of-the-call-alone"
  ELSE IF h[i].r # h[i].r1 THEN "result-changed-later"
  ELSE "ok"
=============================================================================
