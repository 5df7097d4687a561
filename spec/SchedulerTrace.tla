----------------------------- MODULE SchedulerTrace ----------------------------
(* Recorded calls of the real scheduler as behaviours of Scheduler.           *)
EXTENDS Scheduler, TraceLib
VARIABLES t, l
tvars == <<vars, t, l>>
E == TraceEv(t)[l]
P == Resolve(E.built, E.over)
(* A thinning which does not know the (longer) burn-in of the schedule       *)
Mismatch(p) == p.sel >= 0 /\ p.tn < p.n
TStart == /\ run.ph = "idle" /\ Start(P, E.T)
          /\ (Mismatch(P) \/ E.announced = Announced(P, E.T))
StepOk == Close(E.step, StepSize(run.p, run.T, k), 2000, 30)
TReport == Report(E.acc = 1) /\ StepOk /\ E.temp = run.p.tau
           /\ E.burn = (IF AfterBurnIn(run.p, k) THEN ONE ELSE 0)
TFinish == Finish /\ (Exact \/ Mismatch(run.p))

(* Selection frequencies over many keys: the weights are the step sizes of    *)
(* the iterations after burn-in. A single selection has exactly these         *)
(* probabilities, for several ones the frequency increases with the weight.   *)
FW(i) == IF i - 1 < P.tn THEN 0 ELSE StepSize(P, E.T, i - 1)
TotalW == FSum([i \in 1 .. E.T |-> FW(i)])
Root(x) == Sqrt(Fix(x)) \div ONE + 1
TFreq == /\ Len(E.counts) = E.T
         /\ SumSeq(E.counts) = E.num * P.sel
         /\ \A i \in 1 .. E.T : FW(i) = 0 => E.counts[i] = 0
         /\ (P.sel = 1 => \A i \in 1 .. E.T :
               LET e == Mul(Fix(E.num), Div(FW(i), TotalW)) \div ONE
               IN Abs(E.counts[i] - e) <= 5 * Root(e) + 3)
         /\ \A i, j \in 1 .. E.T :
               (FW(i) > 0 /\ FW(i) <= FW(j)) =>
                 E.counts[i] <= E.counts[j] + 5 * Root(E.counts[j]) + 3
         /\ (P.sel < Cardinality({i \in 1 .. E.T : FW(i) > 0}) =>
              \A i, j \in 1 .. E.T :
               (FW(i) > 0 /\ FW(i) <= FW(j) \div 6) => E.counts[i] < E.counts[j])
         /\ UNCHANGED vars
Act == CASE E.op = "init" -> TStart
         [] E.op = "rejected" -> run.ph = "idle" /\ Refuse(P, E.T)
         [] E.op = "get" -> TReport
         [] E.op = "update" -> Update
         [] E.op = "fin" -> TFinish
         [] E.op = "freq" -> TFreq
         [] OTHER -> FALSE
Why == CASE E.op = "get" ->
              IF k >= run.T THEN "iteration"
              ELSE IF ~StepOk THEN "step size" ELSE IF E.temp # run.p.tau THEN "temperature"
              ELSE IF E.burn # (IF AfterBurnIn(run.p, k) THEN ONE ELSE 0) THEN "burn-in"
              ELSE "acceptance"
         [] E.op = "init" -> IF Feasible(P, E.T) THEN "announced number of samples"
                             ELSE "too many selections not rejected"
         [] E.op = "fin" -> "number or choice of accepted iterations"
         [] OTHER -> E.op
TInit == t \in 1 .. NTraces /\ l = 1 /\ Init0
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED t
        ELSE Reject(t, l, Why) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<vars, t>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<vars, t>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
