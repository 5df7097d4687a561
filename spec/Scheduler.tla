------------------------------- MODULE Scheduler -------------------------------
(***************************************************************************)
(* The combined scheduler of jax_sgmc.scheduler: a counter of iterations    *)
(* together with a step-size schedule, a constant temperature, an initial   *)
(* burn-in and a thinning that accepts a set of iterations chosen at the    *)
(* start.                                                                   *)
(*                                                                         *)
(*   run   parameters of the current run (after resolving the overrides)    *)
(*   k     iterations done                                                  *)
(*   acc   accepted iterations among those reported so far                  *)
(*   kept  number of iterations < k which pass burn-in and thinning         *)
(*   memo  accepted iterations of finished runs by parameters and key       *)
(* Numbers are fixed-point (see FixedPoint).                                *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC
VARIABLES run, k, acc, kept, memo
vars == <<run, k, acc, kept, memo>>

Idle == [ph |-> "idle"]

(* Values given at initialization override the values of the construction,  *)
(* which override the defaults.                                             *)
Get(f, over, built, default) ==
  IF f \in DOMAIN over THEN over[f]
  ELSE IF f \in DOMAIN built THEN built[f] ELSE default
Resolve(built, over) ==
  [kind  |-> built.kind,
   a     |-> Get("a", over, built, ONE),
   b     |-> Get("b", over, built, ONE),
   gamma |-> Get("gamma", over, built, 0),
   first |-> Get("first", over, built, ONE),
   last  |-> Get("last", over, built, ONE),
   tau   |-> Get("tau", over, built, ONE),
   n     |-> Get("n", over, built, 0),
   sel   |-> Get("sel", over, built, -1),
   tn    |-> Get("tn", over, built, 0),
   key   |-> Get("key", over, built, 0)]

StepSize(p, T, i) ==
  IF p.kind = "default" THEN ONE
  ELSE IF p.kind = "poly" THEN Mul(p.a, Pow(p.b + Fix(i), -p.gamma))
  ELSE LET ginv == -Div(ONE, p.gamma)
           f == Pow(p.first, ginv)
           l == Pow(p.last, ginv)
       IN IF T = 1 THEN p.first
          ELSE Pow(f + Frac(1, T - 1) * i * 0 + (IF l = f THEN 0 ELSE Div((l - f), Fix(T - 1)) * i), -p.gamma)
AfterBurnIn(p, i) == i >= p.n
Remaining(p, T) == IF T > p.n THEN T - p.n ELSE 0
Announced(p, T) == IF p.sel >= 0 /\ p.sel < Remaining(p, T) THEN p.sel
                   ELSE Remaining(p, T)
(* A request of more iterations than remain after burn-in is rejected       *)
Feasible(p, T) == p.sel <= (IF T > p.tn THEN T - p.tn ELSE 0)

Init0 == run = Idle /\ k = 0 /\ acc = {} /\ kept = 0 /\ memo = <<>>

Start(p, T) == /\ Feasible(p, T)
               /\ run' = [ph |-> "run", p |-> p, T |-> T]
               /\ k' = 0 /\ acc' = {} /\ kept' = 0 /\ UNCHANGED memo
Refuse(p, T) == /\ ~ Feasible(p, T) /\ UNCHANGED vars

(* Acceptance of iteration k: without thinning all are accepted; otherwise  *)
(* only after the burn-in known to the thinning, and the remaining          *)
(* iterations have to suffice to reach exactly the requested number.        *)
MayAccept(y) ==
  LET p == run.p
      before == Cardinality(acc \ {k})
  IN IF p.sel < 0 THEN y
     ELSE /\ y => k >= p.tn /\ before < p.sel
          /\ ~y => p.sel - before <= run.T - 1 - k
Report(y) == /\ run.ph = "run" /\ k < run.T
             /\ MayAccept(y)
             /\ acc' = (IF y THEN acc \cup {k} ELSE acc \ {k})
             /\ UNCHANGED <<run, k, kept, memo>>
Update == /\ run.ph = "run" /\ k < run.T
          /\ k' = k + 1
          /\ kept' = kept + (IF k \in acc /\ AfterBurnIn(run.p, k) THEN 1 ELSE 0)
          /\ UNCHANGED <<run, acc, memo>>
(* The choice of the thinning is a function of its arguments and its key    *)
Sig == <<run.p, run.T>>
Known == {i \in 1 .. Len(memo) : memo[i][1] = Sig}
Finish == /\ run.ph = "run" /\ k = run.T
          /\ \A i \in Known : memo[i][2] = acc
          /\ memo' = (IF Known = {} THEN Append(memo, <<Sig, acc>>) ELSE memo)
          /\ run' = Idle /\ UNCHANGED <<k, acc, kept>>

(* At the end of a run exactly the announced number has been kept. (The     *)
(* thinning has to know at least the burn-in of the scheduler.)                    *)
Exact == (run.ph = "run" /\ k = run.T /\ (run.p.sel < 0 \/ run.p.tn >= run.p.n))
           => kept = Announced(run.p, run.T)
NoEarlySample == run.ph = "run" =>
  (run.p.sel >= 0 => \A i \in acc : i >= run.p.tn)
===============================================================================
