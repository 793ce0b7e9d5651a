------------------------------ MODULE MC_Calib ------------------------------
(***************************************************************************)
(* Design model of the calibration: every grid/model pair is observed      *)
(* (Observe) and calibrated by the ideal calibration, which returns the    *)
(* true model (Calibrate).  TLC checks that the observation keeps the      *)
(* order of nodes on every line (so grouping into lines is meaningful) and *)
(* that the ideal calibration meets every clause the trace specification   *)
(* demands of the code.  The observed nodes are written out: they are the  *)
(* inputs on which the real calibration functions are run.                 *)
(***************************************************************************)
EXTENDS Calib, TLC, Json, IOUtils, FiniteSets, SequencesExt
R == 512
u == S \div R
\* models: K in 1/1024ths at R = 512 px.  Centre at (400, 500) px.
Ks == { <<1024, 0, -27>>, <<1024, 0, 40>>, <<1024, 5, 13, 2>>, <<1003, -10, -27>>, <<1024, 0, -20, 0, -3>> }
\* origin of the grid relative to the centre, in quarter pixels (never on a line)
Offs == { <<45, -30>>, <<-62, 75>>, <<33, 118>> }
Tilts == { 0, 1, -2 }        \* per cent
Sizes == { <<9, 11>>, <<8, 9>> }
Cfgs == { [K |-> k, o |-> o, t |-> t, z |-> z] : k \in Ks, o \in Offs, t \in Tilts, z \in Sizes }
Cfg == SetToSeq(Cfgs)
M(c) == [R |-> R, xc |-> 500 * u, yc |-> 400 * u, K |-> [i \in 1..Len(c.K) |-> c.K[i] * (S \div 1024)]]
G(c) == [nh |-> c.z[1], nv |-> c.z[2], p |-> 60 * u, t |-> c.t * (S \div 100),
         oy |-> 400 * u + c.o[1] * (u \div 4), ox |-> 500 * u + c.o[2] * (u \div 4)]
ASSUME ndJsonSerialize(IOEnv.SCEN, [n \in 1..Len(Cfg) |->
   [R |-> R, xc |-> 500 * u, yc |-> 400 * u, K |-> M(Cfg[n]).K, pitch |-> 60,
    nh |-> Cfg[n].z[1], nv |-> Cfg[n].z[2], t |-> Cfg[n].t, pts |-> Observed(M(Cfg[n]), G(Cfg[n]))]])

VARIABLES n, obs, cor
vars == <<n, obs, cor>>
Init == n \in 1..Len(Cfg) /\ obs = <<>> /\ cor = <<>>
Observe == obs = <<>> /\ obs' = Observed(M(Cfg[n]), G(Cfg[n])) /\ UNCHANGED <<n, cor>>
Calibrate == /\ obs # <<>> /\ cor = <<>>
             /\ cor' = [i \in 1..Len(obs) |-> [j \in 1..Len(obs[1]) |-> Corrected(M(Cfg[n]), "backward", obs[i][j])]]
             /\ UNCHANGED <<n, obs>>
Next == Observe \/ Calibrate
Spec == Init /\ [][Next]_vars
Ordered == obs # <<>> => \A i \in 1..Len(obs) : \A j \in 1..Len(obs[1]) :
   /\ (j > 1 => obs[i][j-1][2] < obs[i][j][2])
   /\ (i > 1 => obs[i-1][j][1] < obs[i][j][1])
Ideal == cor # <<>> =>
   /\ \A i \in 1..Len(cor) : Straight(cor[i], u \div 100) /\ Even(cor[i], u \div 50)
   /\ \A j \in 1..Len(cor[1]) : Straight(Col(cor, j), u \div 100) /\ Even(Col(cor, j), u \div 50)
=============================================================================
