------------------------------- MODULE ProgressMC ------------------------------
(* All runs of two reporters with few iterations, in every interleaving.      *)
EXTENDS Progress
CONSTANTS MaxT, MaxSteps, Variant
VARIABLES P, it, out
vars == <<P, it, out>>
Sum(s) == Kept([keep |-> s], Len(s) - 1)
MInit ==
  /\ \E T \in 1 .. MaxT, st \in 1 .. MaxSteps, on \in 0 .. 1 :
     \E k1 \in [1 .. T -> 0 .. 1], k2 \in [1 .. T -> 0 .. 1] :
       P = << [T |-> T, steps |-> st, keep |-> k1, on |-> 1, tot |-> Sum(k1)],
              [T |-> T, steps |-> st, keep |-> k2, on |-> on, tot |-> Sum(k2)] >>
  /\ it = [c \in 1 .. 2 |-> 0]
  /\ out = [c \in 1 .. 2 |-> <<>>]
(* An iteration of the run, which may print a report                          *)
Count(c) == IF Variant = "late" THEN Kept(P[c], it[c] - 1) ELSE Kept(P[c], it[c])
Shown(c) == P[c].on = 1 /\ it[c] % Period(P[c]) = 0
Step(c) ==
  /\ it[c] < P[c].T
  /\ it' = [it EXCEPT ![c] = @ + 1]
  /\ out' = IF Shown(c)
            THEN [out EXCEPT ![c] = Append(@, [it |-> it[c], T |-> P[c].T, got |-> Count(c),
                                               pct |-> (100 * it[c]) \div P[c].T, tot |-> P[c].tot])]
            ELSE out
  /\ UNCHANGED P
MSpec == MInit /\ [][\E c \in 1 .. 2 : Step(c)]_vars
Done(c) == it[c] = P[c].T
Abs2(e, R) == [e EXCEPT !.pct = IF 2 * Dist(e.pct * R.T, 100 * e.it) <= R.T THEN e.pct ELSE e.pct + 1]
Exact == \A c \in 1 .. 2 : \A i \in DOMAIN out[c] : IsReport(P[c], i, Abs2(out[c][i], P[c]))
Complete == \A c \in 1 .. 2 : Done(c) => Len(out[c]) = Reports(P[c])
Silent == \A c \in 1 .. 2 : P[c].on = 0 => out[c] = <<>>
Frequent == \A c \in 1 .. 2 : (Done(c) /\ P[c].on = 1) =>
  /\ Len(out[c]) >= (IF P[c].T < P[c].steps THEN P[c].T ELSE P[c].steps)
  /\ Len(out[c]) < 2 * P[c].steps \/ Len(out[c]) <= P[c].steps
(* Reports never overstate, and the last one is complete if all are shown     *)
Honest == \A c \in 1 .. 2 : \A i \in DOMAIN out[c] :
  /\ out[c][i].got <= P[c].tot
  /\ i > 1 => out[c][i - 1].got <= out[c][i].got
  /\ (Done(c) /\ out[c][i].it = P[c].T - 1) => out[c][i].got = P[c].tot
===============================================================================
