--------------------------- MODULE DualAveragingTrace ---------------------------
(* Recorded step sizes of the real schedule.                                  *)
(* Event "it": one iteration, g logarithm of the step size in use, same = 1   *)
(* if it is identical to the one of the iteration before, acc the acceptance  *)
(* ratio observed, bad = 1 if it is undefined.                                *)
EXTENDS DualAveraging, TraceLib
VARIABLES t, l, s
tvars == <<t, l, s>>
E == TraceEv(t)[l]
P == TraceCfg(t)
(* Logarithms of values outside of the range of single precision are cut      *)
CUT == 80 * ONE
SameLog(a, b) ==
  \/ Close(a, b, 1000, P.tol)
  \/ a > CUT /\ b > CUT
  \/ a < -CUT /\ b < -CUT
Why ==
  CASE E.op = "it" ->
         IF s.it = 0 /\ ~Close(Exp(E.g), P.p.ini, 20000, 4) THEN "initial step size"
         ELSE IF s.it > P.p.n0 /\ E.same # 1 THEN "changed after burn-in"
         ELSE IF ~s.bad /\ ~SameLog(E.g, s.x) THEN "step size" ELSE ""
    [] OTHER -> E.op
TInit == /\ t \in 1 .. NTraces /\ l = 1
         /\ LET i == Init0(TraceCfg(t).p) IN s = [it |-> 0, h |-> 0, x |-> i.x, bad |-> FALSE]
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = ""
        THEN /\ l' = l + 1 /\ UNCHANGED t
             /\ s' = LET n == Update(P.p, s, E.acc)
                     IN [it |-> n.it, h |-> n.h, x |-> n.x,
                         bad |-> s.bad \/ (E.bad = 1 /\ s.it < P.p.n0)]
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, s>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
