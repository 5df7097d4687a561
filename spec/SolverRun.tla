------------------------------- MODULE SolverRun -------------------------------
(***************************************************************************)
(* A run of a solver for several chains (jax_sgmc.solver.mcmc), abstracting *)
(* from the mechanism that transfers the samples to the data collector.     *)
(*                                                                         *)
(* The solver is a small deterministic machine whose state h depends on     *)
(* every schedule it was given, and the schedules depend on the statistics  *)
(* returned by the solver, so any omitted, repeated or reordered step and   *)
(* any mixed up argument is visible in all later samples:                   *)
(*   n  number of updates          h  digest of the schedules used          *)
(*   a  states of the step-size schedules (main and additional ones)        *)
(* kept: accepted states, stored: how many of them the collector has        *)
(* processed, fin: the collector was told that the chain is complete.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, ch
vars == <<cfg, ch>>
M == 997

(* cfg: keep for each chain one zero or one per iteration, a0 initial       *)
(* states of the step-size schedules, tau temperatures, stats whether the   *)
(* solver returns statistics, chains: initial value of h for each chain     *)
Chains == 1 .. Len(cfg.chains)
T(c) == Len(cfg.keep[c])
RECURSIVE Digest(_, _, _)
Digest(h, a, tau) ==
  IF a = <<>> THEN h
  ELSE Digest((7 * h + 3 * Head(a) + 11 * Head(tau)) % M, Tail(a), Tail(tau))
NextH(h, a) == (Digest(h, a, cfg.tau) + 1) % M
Stat(h) == IF cfg.stats = 1 THEN h % 10 ELSE 7
NextA(a, h, k) == [i \in 1 .. Len(a) |-> (3 * a[i] + Stat(h) + k) % M]

Init0(c) == cfg = c /\ ch = [i \in 1 .. Len(c.chains) |->
              [ph |-> "run", k |-> 0, n |-> 0, h |-> c.chains[i], a |-> c.a0,
               kept |-> <<>>, stored |-> 0, fin |-> 0]]

CanIterate(c) == ch[c].ph = "run" /\ ch[c].k < T(c)
(* One iteration: the solver gets the schedule of this iteration, then the  *)
(* new state is collected, then the statistics are given to the schedules.  *)
Iterate(c) ==
  /\ CanIterate(c)
  /\ LET x == ch[c]
         h == NextH(x.h, x.a)
     IN ch' = [ch EXCEPT ![c] = [x EXCEPT
          !.k = x.k + 1, !.n = x.n + 1, !.h = h, !.a = NextA(x.a, h, x.k),
          !.kept = IF cfg.keep[c][x.k + 1] = 1
                   THEN Append(x.kept, <<x.n + 1, h>>) ELSE x.kept]]
  /\ UNCHANGED cfg

(* The collector processes accepted samples in order                        *)
CanStore(c) == ch[c].stored < Len(ch[c].kept) /\ ch[c].fin = 0
Store(c, v) ==
  /\ CanStore(c)
  /\ v = ch[c].kept[ch[c].stored + 1]
  /\ ch' = [ch EXCEPT ![c].stored = ch[c].stored + 1]
  /\ UNCHANGED cfg
Complete(c) == ch[c].k = T(c) /\ ch[c].stored = Len(ch[c].kept)
Finalize(c) ==
  /\ ch[c].ph = "run" /\ Complete(c) /\ ch[c].fin = 0
  /\ ch' = [ch EXCEPT ![c].fin = 1] /\ UNCHANGED cfg
Return(c, count, samples) ==
  /\ ch[c].ph = "run" /\ Complete(c) /\ ch[c].fin = 1
  /\ count = Len(ch[c].kept) /\ samples = ch[c].kept
  /\ ch' = [ch EXCEPT ![c].ph = "done"] /\ UNCHANGED cfg

(* Definition of the result without reference to the steps                  *)
RECURSIVE Trajectory(_, _, _, _)
Trajectory(h, a, k, n) ==
  IF k = n THEN <<>>
  ELSE LET g == NextH(h, a)
       IN <<<<k + 1, g>>>> \o Trajectory(g, NextA(a, g, k), k + 1, n)
RECURSIVE Select(_, _)
Select(s, keep) ==
  IF s = <<>> THEN <<>>
  ELSE (IF Head(keep) = 1 THEN <<Head(s)>> ELSE <<>>) \o Select(Tail(s), Tail(keep))
Result(c) == Select(Trajectory(cfg.chains[c], cfg.a0, 0, T(c)), cfg.keep[c])

ExactlyAccepted == \A c \in Chains : ch[c].ph = "done" => ch[c].kept = Result(c)
AllStored == \A c \in Chains : ch[c].ph = "done" => ch[c].stored = Len(Result(c))
===============================================================================
