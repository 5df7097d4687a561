-------------------------------- MODULE Progress -------------------------------
(***************************************************************************)
(* Progress reports of a run (property C21).                               *)
(*                                                                         *)
(* Every schedule of every chain with an enabled bar is a reporter. It has *)
(* T iterations (counted from zero), keeps the samples of the iterations k *)
(* with keep[k + 1] = 1 and is asked for about `steps' reports: it reports *)
(* at every Period-th iteration, beginning with the first one, how many    *)
(* samples have been kept up to and including this iteration, out of tot.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
Period(R) == IF R.T \div R.steps = 0 THEN 1 ELSE R.T \div R.steps
RECURSIVE Kept(_, _)
Kept(R, k) == IF k < 0 THEN 0 ELSE Kept(R, k - 1) + R.keep[k + 1]
Reports(R) == IF R.on = 0 THEN 0 ELSE ((R.T - 1) \div Period(R)) + 1
(* The i-th report, i = 1, 2, ...                                           *)
At(R, i) == (i - 1) * Period(R)
Dist(a, b) == IF a < b THEN b - a ELSE a - b
IsReport(R, i, e) ==
  /\ i <= Reports(R)
  /\ e.it = At(R, i) /\ e.T = R.T
  /\ 2 * Dist(e.pct * R.T, 100 * e.it) <= R.T
  /\ e.got = Kept(R, e.it) /\ e.tot = R.tot
===============================================================================
