---------------------------- MODULE IntegratorTrace ----------------------------
(* Motions of the real integrators compared with their update rules.           *)
EXTENDS Integrator, TraceLib
VARIABLES t, l
tvars == <<t, l>>
E == TraceEv(t)[l]
P == TraceCfg(t)
Rel == 4000
Eps == 60
Near1(a, b) == Close(a, b, Rel, Eps)
NearV(u, v) == CloseSeq(u, v, Rel, Eps)
SameV(u, v) == NearV(u, v)

Full(s) == [x |-> s.x, p |-> s.p, b |-> s.b, mst |-> s.mst, ks |-> s.ks,
            ke |-> s.ke, pot |-> s.pot, en |-> s.en, v |-> s.v, i |-> 0]

(* Fresh data, model state passed from evaluation to evaluation              *)
RECURSIVE MstAfter(_, _, _)
MstAfter(mst, b, n) == IF n = 0 THEN mst ELSE MstAfter(NextMst(mst, b), b + 1, n - 1)
Consumed(s, r) == /\ r.b = s.b + BatchesPerCall(P)
                  /\ r.mst = MstAfter(s.mst, s.b, BatchesPerCall(P))
                  /\ r.key = 1

(* One call without noise                                                    *)
Exact(s, r) ==
  IF P.kind = "sghmc"
  THEN LET b == Back(P, r.x, r.p, r.b, P.steps)
       IN /\ NearV(b.x, s.x)
          /\ Near1(r.pot, Pot(P, r.b - 1, r.x))
  ELSE LET e == Call(P, Full(s), NoNoise, FALSE)
       IN /\ NearV(r.x, e.x)
          /\ (P.kind = "langevin" \/ NearV(r.p, e.p))
          /\ (P.kind # "amagold" => Near1(r.pot, e.pot))
          /\ (P.kind = "amagold" => Near1(r.en, e.en))
          /\ (P.kind = "obabo" => Near1(r.ks, e.ks) /\ Near1(r.ke, e.ke))
          /\ (P.ad.on = 1 => NearV(r.v, e.v))

(* One step with noise: the energies belong to the motion that took place    *)
Energy(s, r) ==
  CASE P.kind = "obabo" ->
         LET p2 == VScale(Div(ONE, P.h), MatVec(P.m, VSub(r.x, s.x)))
             p1 == VAdd(p2, VScale(P.h \div 2, Grad(P, s.b, s.x, FALSE)))
             p3 == VSub(p2, VScale(P.h \div 2, Grad(P, s.b + 1, r.x, FALSE)))
         IN /\ Close(r.ks - s.ks, Kin(P, p1), 500, 300)
            /\ Close(r.ke - s.ke, Kin(P, p3), 500, 300)
            /\ Near1(r.pot, Mul(Half, Pot(P, s.b, s.x) + Pot(P, s.b + 1, r.x)))
    [] P.kind = "amagold" ->
         LET xm == VAdd(s.x, VScale(P.h \div 2, MatVec(P.minv, s.p)))
             g == Grad(P, s.b, xm, FALSE)
         IN /\ Near1(r.en, Mul(P.h \div 2, Dot(VAdd(s.p, r.p), MatVec(P.minv, g))))
            /\ NearV(r.x, VAdd(xm, VScale(P.h \div 2, MatVec(P.minv, r.p))))
    [] P.kind = "sghmc" -> Near1(r.pot, Pot(P, r.b - 1, r.x))
    [] OTHER -> Near1(r.pot, Pot(P, s.b, s.x))

(* Six standard errors of sample means and covariances of rootn^2 samples    *)
StatsWhy(e) ==
  LET s == Full(e.s)
      m == MeanZ(P, s, e.calls)
      vend == Calls(P, s, NoNoise, FALSE, e.calls).v
      C == CovZ(Responses(P, s, e.calls, e.ini, vend), 2 * Dim(P))
      n == IF P.kind = "langevin" THEN Dim(P) ELSE 2 * Dim(P)
      w == 6 * (ONE \div e.rootn)
      sd(i) == Sqrt(C[i][i])
  IN IF \E i \in 1 .. n : FAbs(e.mean[i] - m[i]) > Mul(w, sd(i)) + 300 + FAbs(m[i]) \div 2000
     THEN "mean of the motion"
     ELSE IF \E i, j \in 1 .. n :
        FAbs(e.cov[i][j] - C[i][j])
          > Mul(w, Sqrt(Mul(C[i][i], C[j][j]) + Mul(C[i][j], C[i][j])))
            + 300 + FAbs(C[i][j]) \div 1000
     THEN "covariance of the motion"
     ELSE IF e.b # e.s.b + e.calls * BatchesPerCall(P) THEN "batches" ELSE ""

Var(u) == LET n == Len(u)
              mu == FSum(u) \div n
          IN FSum([i \in 1 .. n |-> Mul(u[i] - mu, u[i] - mu)]) \div n

Why ==
  CASE E.op = "call" ->
         IF ~Consumed(E.s, E.r) THEN "fresh data and model state"
         ELSE IF E.noisy = 0 /\ ~Exact(E.s, E.r) THEN "update rule"
         ELSE IF E.noisy = 1 /\ ~Energy(E.s, E.r) THEN "energies" ELSE ""
    [] E.op = "stats" -> StatsWhy(E)
       (* initial state: data state, key and momentum as given                *)
    [] E.op = "init" -> IF E.x = E.want.x /\ E.b = E.want.b /\ E.mst = E.want.mst
                           /\ (P.kind = "obabo" => \A i \in DOMAIN E.p : E.p[i] = 0)
                        THEN "" ELSE "initial state"
       (* variance of the potential: N^2/n times the variance of the          *)
       (* likelihoods of the batch                                            *)
    [] E.op = "variance" -> IF Close(E.var, Mul(Frac(E.nn, 1) \div E.n, Var(E.lik)), 1000, 100)
                               /\ Near1(E.lk, -E.pot) THEN "" ELSE "variance"
    [] E.op = "get" -> IF E.same = 1 THEN "" ELSE "reported sample"
    [] OTHER -> E.op

TInit == t \in 1 .. NTraces /\ l = 1
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = "" THEN l' = l + 1 /\ UNCHANGED t
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED t
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
