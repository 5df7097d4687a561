----------------------------- MODULE PotentialTrace ----------------------------
(* Evaluations of the real potentials compared with Potential.                *)
EXTENDS Potential, TraceLib
VARIABLES t, l
tvars == <<t, l>>
E == TraceEv(t)[l]
P == TraceCfg(t)
Rel == 4000
Eps == 40
Near1(a, b) == Close(a, b, Rel, Eps)
NearV(u, v) == CloseSeq(u, v, Rel, Eps)

(* Indices of rows: the content of masked entries has to be known only for  *)
(* the likelihoods, which are returned for every entry of the batch          *)
Rows == E.rows
Mask == IF E.masked = 1 THEN E.mask ELSE Ones(Len(Rows))
MiniWhy ==
  IF ~Near1(E.u, Stochastic(P, Rows, Mask, E.nn, Len(Rows), E.w, E.m)) THEN "stochastic potential"
  ELSE IF E.grad # <<>> /\ ~NearV(E.grad, DStochastic(P, Rows, Mask, E.nn, Len(Rows), E.w, E.m))
       THEN "gradient"
  ELSE IF E.liks = 1 /\ ~NearV(E.lik, [i \in DOMAIN Rows |-> LL(P, Rows[i], E.w, E.m)])
       THEN "likelihoods of the observations"
  ELSE IF E.ms = 0 THEN (IF E.m1 = -1 THEN "" ELSE "model state")
  ELSE IF \E i \in DOMAIN Rows : E.m1 = Next(E.m, Rows[i]) THEN "" ELSE "model state"

FullWhy ==
  LET O == FullOutcomes(P, P.rows, E.mb, E.w, E.m)
  IN IF ~\E o \in O : Near1(E.u, o.u) THEN "full potential"
     ELSE IF ~\E o \in O : Near1(E.u, o.u) /\ E.m1 = o.m THEN "model state"
     ELSE IF E.grad # <<>> /\ ~\E o \in O : Near1(E.u, o.u) /\ E.m1 = o.m /\ NearV(E.grad, o.d)
          THEN "gradient"
     ELSE ""
Why == CASE E.op = "mini" -> MiniWhy
         [] E.op = "full" -> FullWhy
         [] OTHER -> E.op

TInit == t \in 1 .. NTraces /\ l = 1
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = "" THEN l' = l + 1 /\ UNCHANGED t
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED t
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
