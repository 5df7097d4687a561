--------------------------------- MODULE Alias ---------------------------------
(***************************************************************************)
(* The predefined samplers as functions of their arguments.                *)
(*                                                                         *)
(* Arguments a: name, bs, cs (batch and cache size), steps, fr (friction,  *)
(* in 1/16), mass, h0, h1 (first and last step size, in 1/4096), ad        *)
(* (adaptive step size), al, t0, ka, ga (its parameters), temp, burn,      *)
(* acc (accepted samples, -1: all), rms, alpha, lmbd, noise, diag,         *)
(* save, bar, its, chains.                                                 *)
(* Components(a) is the sampler composed of integrator, solver and         *)
(* schedules which the arguments request. (fields not used are zero)       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Names == {"sgld", "re_sgld", "amagold", "sggmc", "sghmc", "obabo"}
MH == {"amagold", "sggmc"}
Integ(a) ==
  CASE a.name \in {"sgld", "re_sgld"} ->
         [kind |-> "langevin", steps |-> 1, fr |-> 0, mass |-> 0,
          adapt |-> IF a.name = "sgld" /\ a.rms = 1 THEN "rms" ELSE "none",
          alpha |-> IF a.name = "sgld" THEN a.alpha ELSE 0,
          lmbd |-> IF a.name = "sgld" THEN a.lmbd ELSE 0]
    [] a.name = "amagold" ->
         [kind |-> "reversible", steps |-> a.steps, fr |-> a.fr, mass |-> a.mass,
          adapt |-> "none", alpha |-> 0, lmbd |-> 0]
    [] a.name \in {"sggmc", "obabo"} ->
         [kind |-> "obabo", steps |-> a.steps, fr |-> a.fr, mass |-> a.mass,
          adapt |-> "none", alpha |-> 0, lmbd |-> 0]
    [] a.name = "sghmc" ->
         [kind |-> "friction", steps |-> a.steps, fr |-> a.fr, mass |-> a.mass,
          adapt |-> IF a.noise = 0 THEN "none" ELSE IF a.diag = 1 THEN "fisher-diag" ELSE "fisher-dense",
          alpha |-> 0, lmbd |-> 0]
Step(a) ==
  IF a.name \in MH /\ a.ad = 1
  THEN [kind |-> "adaptive", h0 |-> a.h0, h1 |-> 0, burn |-> a.burn, al |-> a.al,
        t0 |-> a.t0, ka |-> a.ka, ga |-> a.ga]
  ELSE [kind |-> "poly", h0 |-> a.h0, h1 |-> a.h1, burn |-> 0, al |-> 0, t0 |-> 0, ka |-> 0, ga |-> 0]
Components(a) ==
  [bs |-> a.bs, cs |-> a.cs, integ |-> Integ(a), step |-> Step(a), burn |-> a.burn,
   sel |-> a.acc, solver |-> CASE a.name \in MH -> a.name
                               [] a.name = "re_sgld" -> "tempering" [] OTHER -> "sgmc",
   hot |-> IF a.name = "re_sgld" THEN a.temp ELSE 0]
(* Number of samples returned for each chain                                *)
Count(a) == IF a.acc = -1 THEN a.its - a.burn ELSE a.acc
(* Evaluations of the potential in one iteration: the stochastic one, and    *)
(* the full one of a proposal, batch by batch, evaluated also initially.     *)
Batches(a) == (7 + a.bs - 1) \div a.bs     \* seven observations
Before(a) == IF a.name \in MH THEN Batches(a) ELSE 0
Evals(a) == Before(a) +
            CASE a.name \in {"sgld", "re_sgld"} -> 1
              [] a.name \in {"sggmc", "obabo"} -> 2 * a.steps
              [] OTHER -> a.steps
Valid(a) ==
  /\ a.burn < a.its
  /\ a.acc # -1 => a.acc <= a.its - a.burn
  /\ a.name \notin MH => a.acc # -1 /\ a.ad = 0
  /\ a.ad = 1 => a.acc = -1
  /\ a.name = "sghmc" /\ a.noise = 1 => a.bs >= 2 /\ a.mst = 0
===============================================================================
