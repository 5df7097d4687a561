------------------------------ MODULE SchedulerMC ------------------------------
(* All runs of the scheduler with few iterations; the start states are also   *)
(* printed as scenarios for the real code.                                    *)
EXTENDS Scheduler, Json
CONSTANTS MaxT, Broken
MCInit == Init0
Params == {[kind |-> "default", a |-> ONE, b |-> ONE, gamma |-> 0, first |-> ONE,
            last |-> ONE, tau |-> ONE, n |-> n, sel |-> s - 1, tn |-> n, key |-> key]
            : n \in 0 .. MaxT + 1, s \in 0 .. MaxT + 1, key \in 0 .. 1}
MCStart == run.ph = "idle" /\ Len(memo) < 2 /\ \E p \in Params, T \in 1 .. MaxT :
             Start(p, T) \/ Refuse(p, T)
BrokenReport == /\ run.ph = "run" /\ k < run.T
                /\ \E y \in BOOLEAN : acc' = (IF y THEN acc \cup {k} ELSE acc)
                /\ UNCHANGED <<run, k, kept, memo>>
(* one report for each iteration *)
Reported == run.ph = "run" /\ (k \in acc \/ run.p.sel >= 0)
MCNext == \/ MCStart
          \/ IF Broken THEN BrokenReport ELSE \E y \in BOOLEAN : Report(y)
          \/ (Reported /\ (IF Broken THEN TRUE ELSE MayAccept(k \in acc)) /\ Update)
          \/ Finish
MCSpec == MCInit /\ [][MCNext]_vars
NotStuck == (run.ph = "run" /\ k < run.T) =>
               \E y \in BOOLEAN : MayAccept(y)
Reproducible == \A i, j \in 1 .. Len(memo) : memo[i][1] = memo[j][1] => i = j
ASSUME \A T \in 1 .. MaxT, n \in 0 .. MaxT + 1, s \in 0 .. MaxT + 1 :
         PrintT(<<"BEHAVIOUR", ToJson([T |-> T, n |-> n, sel |-> s - 1])>>)
===============================================================================
