-------------------------- MODULE ReplicaExchangeTrace --------------------------
(* Iterations of the real solver as steps of ReplicaExchange.                 *)
EXTENDS ReplicaExchange, TraceLib
VARIABLES t, l, s
tvars == <<t, l, s>>
E == TraceEv(t)[l]
P == TraceCfg(t)
Near1(a, b) == Close(a, b, 20000, 12)
NearV(u, v) == CloseSeq(u, v, 20000, 12)
SameC(r, e) == /\ NearV(r.x, e.x) /\ r.b = e.b /\ Near1(r.u, e.u) /\ Near1(r.v, e.v)
               /\ Near1(r.T, e.T) /\ Near1(r.h, e.h) /\ r.tag = e.tag /\ r.m = e.m
SameAll(u, v) == CloseSeq(u, v, 10000, 20)

(* One iteration of two observed chains                                       *)
NewSsq(vc) == Ssq(Sa(P.sa, s.n + 1), s.ssq, vc)
ChainBad(q, old, T, h) ==
  IF P.real = 1 THEN ~Close(q.v, Variance(q.lik, P.obs), 2000, 300) \/ ~Near1(q.u, q.pot)
  ELSE ~SameC(q, Advance(P, old, T, h))
StepWhy ==
  LET ls == LogS(E.Tc, E.Th, E.qc.u, E.qh.u, NewSsq(E.qc.v), P.F)
      kept == SameAll(E.c, E.qc.all) /\ SameAll(E.h, E.qh.all)
      swapped == SameAll(E.c, E.qh.all) /\ SameAll(E.h, E.qc.all)
  IN IF ChainBad(E.qc, s.c, E.Tc, E.hc) THEN "update of the cold chain"
     ELSE IF ChainBad(E.qh, s.h, E.Th, E.hh) THEN "update of the hot chain"
     ELSE IF ~kept /\ ~swapped THEN "chains are neither kept nor exchanged"
     ELSE IF swapped /\ ~kept /\ ~CanSwap(ls) THEN "exchanged with probability zero"
     ELSE IF kept /\ ~swapped /\ MustSwap(ls) THEN "not exchanged with probability one"
     ELSE IF E.get # 1 THEN "reported values" ELSE ""

InitWhy ==
  IF ~NearV(E.c.x, P.xc) \/ ~NearV(E.h.x, P.xh) THEN "initial samples"
  ELSE IF E.keys # 1 THEN "random keys of the chains"
  ELSE IF E.c.m # P.m0 \/ E.h.m # P.m0 THEN "initial model state" ELSE ""

(* A run reports the cold chain only, the hot one follows from the design     *)
RunNext == [c |-> Advance(P, s.c, E.Tc, E.hc), h |-> Advance(P, s.h, E.Th, E.hh)]
RunWhy ==
  LET q == RunNext
      ls == LogS(E.Tc, E.Th, q.c.u, q.h.u, NewSsq(q.c.v), P.F)
  IN IF ~SameC(E.r, q.c) /\ ~SameC(E.r, q.h) THEN "reported chain"
     ELSE IF SameC(E.r, q.h) /\ ~CanSwap(ls) THEN "exchanged with probability zero"
     ELSE IF SameC(E.r, q.c) /\ MustSwap(ls) THEN "not exchanged with probability one" ELSE ""

CondOk(c, mean, sd) ==
  c.cnt < 30 \/ FAbs(c.mean - mean) <= Div(6 * sd, Sqrt(Frac(c.cnt, 100)) * 10) + 300
FreqWhy ==
  LET ls == LogS(P.Tc, P.Th, P.uc, P.uh, P.v0, P.F)
      pr == SwapProb(ls)
      ok(c, p) == FAbs(Frac(c, E.total) - p) <= (6 * Sqrt(FMax(Mul(p, ONE - p), 0))) \div E.rootn + 200
  IN IF ~ok(E.sw1, pr) THEN "frequency of exchanges"
     ELSE IF ~ok(E.sw2, pr) THEN "frequency of the second exchange"
     ELSE IF ~ok(E.both, Mul(pr, pr)) THEN "dependent exchanges"
     ELSE IF \E k \in DOMAIN E.cond : ~CondOk(E.cond[k], ONE \div 2, 302698)
     THEN "noise depends on the exchange"
     ELSE IF \E k \in DOMAIN E.prod : ~CondOk(E.prod[k], 0, 87381) THEN "dependent noise" ELSE ""

Why == CASE E.op = "init" -> InitWhy
         [] E.op = "step" -> StepWhy
         [] E.op = "run" -> RunWhy
         [] E.op = "freq" -> FreqWhy
         [] OTHER -> E.op
Scr == P.real = 0
After ==
  CASE E.op = "init" -> [c |-> E.c, h |-> E.h, ssq |-> P.ssq, n |-> 0]
    [] E.op = "step" ->
         LET kept == SameAll(E.c, E.qc.all) /\ SameAll(E.h, E.qh.all)
         IN [c |-> IF kept THEN E.qc ELSE E.qh, h |-> IF kept THEN E.qh ELSE E.qc,
             ssq |-> NewSsq(E.qc.v), n |-> s.n + 1]
    [] E.op = "run" ->
         LET q == RunNext
             kept == SameC(E.r, q.c)
         IN [c |-> IF kept THEN q.c ELSE q.h, h |-> IF kept THEN q.h ELSE q.c,
             ssq |-> NewSsq(q.c.v), n |-> s.n + 1]
    [] OTHER -> s
TInit == t \in 1 .. NTraces /\ l = 1 /\ s = [n |-> 0]
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = ""
        THEN /\ l' = l + 1 /\ UNCHANGED t /\ s' = After
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, s>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
