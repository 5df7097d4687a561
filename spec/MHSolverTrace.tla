----------------------------- MODULE MHSolverTrace -----------------------------
(* Steps of the real solvers as steps of MHSolver.                            *)
EXTENDS MHSolver, TraceLib
VARIABLES t, l, s
tvars == <<t, l, s>>
E == TraceEv(t)[l]
P == TraceCfg(t)
Near1(a, b) == Close(a, b, 20000, 6)
NearV(u, v) == CloseSeq(u, v, 20000, 6)
Same(r, e) == /\ NearV(r.x, e.x) /\ NearV(r.p, e.p) /\ r.m = e.m /\ Near1(r.u, e.u)
              /\ Near1(r.en, e.en) /\ r.b = e.b
              /\ r.mass.n = e.mass.n /\ NearV(r.mass.sum, e.mass.sum)

(* Proposals of the real integrators are recorded                             *)
Q == IF P.real = 1 THEN E.q ELSE Proposal(P, s)
U1 == FullU(P, Q.x)
Acc == Accepted(P, s, Q, U1)
Rej == Rejected(P, s, Q)
StepWhy ==
  LET q == Q
      u1 == U1
      al == Alpha(P, s, q, u1)
  IN IF ~(Same(E.r, Acc) \/ Same(E.r, Rej)) THEN "neither accepted nor rejected"
     ELSE IF Same(E.r, Acc) /\ ~Same(E.r, Rej) /\ ~CanAccept(P, s, q, u1) THEN "accepted with probability zero"
     ELSE IF Same(E.r, Rej) /\ ~Same(E.r, Acc) /\ ~CanReject(P, s, q, u1) THEN "rejected with probability zero"
     ELSE IF \E a \in SeqToSet(E.alpha) : ~Close(a, al, 1000, 20) THEN "acceptance ratio"
     ELSE IF E.keys # 1 THEN "random keys"
     ELSE IF E.get # 1 THEN "reported values" ELSE ""

InitWhy ==
  LET e == E.s IN
  IF ~NearV(e.x, P.x0) THEN "initial position"
  ELSE IF ~Near1(e.u, FullU(P, e.x)) THEN "initial potential"
  ELSE IF e.m # GMst(P.m0) THEN "initial model state"
  ELSE IF P.real = 0 /\ P.kind = "amagold" /\ e.p[1] # InvMass(P, e.mass) THEN "initial mass" ELSE ""

(* Frequencies of decisions among total chains which take the same first      *)
(* step: six standard errors. The second step has the same energies.          *)
(* The mean over cnt chains within six standard errors of what independent    *)
(* uniform numbers give (standard deviation sd)                               *)
CondOk(c, mean, sd) ==
  c.cnt < 30 \/ FAbs(c.mean - mean) <= Div(6 * sd, Sqrt(Frac(c.cnt, 100)) * 10) + 300
FreqWhy ==
  LET al == Exp(FMin(0, IF P.kind = "amagold" THEN P.e[1] ELSE -Div(P.e[1], P.temp)))
      ok(c, pr) == FAbs(Frac(c, E.total) - pr)
                   <= (6 * Sqrt(FMax(Mul(pr, ONE - pr), 0))) \div E.rootn + 200
  IN IF ~ok(E.acc1, al) THEN "frequency of acceptance"
     ELSE IF ~ok(E.acc2, al) THEN "frequency of the second acceptance"
     ELSE IF ~ok(E.both, Mul(al, al)) THEN "dependent decisions"
     ELSE IF \/ \E k \in DOMAIN E.cond : ~CondOk(E.cond[k], ONE \div 2, 302698)
             \/ ~CondOk(E.prod, 0, 87381)
     THEN "noise depends on the decision"
     ELSE ""

Why == CASE E.op = "init" -> InitWhy
         [] E.op = "step" -> StepWhy
         [] E.op = "freq" -> FreqWhy
         [] E.op = "range" -> ""
         [] OTHER -> E.op

TInit == t \in 1 .. NTraces /\ l = 1 /\ s = [x |-> <<>>]
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = ""
        THEN /\ l' = l + 1 /\ UNCHANGED t
             /\ s' = CASE E.op = "init" -> E.s
                       [] E.op = "step" -> E.r
                       [] OTHER -> s
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, s>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
