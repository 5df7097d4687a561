---------------------------- MODULE ReplicaExchange ----------------------------
(***************************************************************************)
(* Replica exchange of a cold and a hot chain (reSGLD).                    *)
(*                                                                         *)
(* State: the chain in the cold position, the chain in the hot position,   *)
(* the estimate ssq of the variance of the stochastic potential and the    *)
(* number n of iterations. One iteration                                   *)
(*   1. advances both chains with the schedule of their position,          *)
(*   2. updates ssq with the variance of the chain in the cold position,   *)
(*   3. exchanges the complete chains with probability min(1, exp(LogS)).  *)
(***************************************************************************)
EXTENDS FixedPoint
Delta(tc, th) == Div(ONE, tc) - Div(ONE, th)
(* Weights of the stochastic approximation                                  *)
Sa(kind, n) == CASE kind = "inv" -> Frac(1, n)
                 [] kind = "half" -> ONE \div 2
                 [] kind = "inv1" -> Frac(1, n + 1)
                 [] kind = "sq" -> Frac(1, n * n)
Ssq(a, ssq, v) == Mul(ONE - a, ssq) + Mul(a, v)
LogS(tc, th, uc, uh, ssq, F) ==
  LET d == Delta(tc, th) IN Mul(d, uc - uh - Div(Mul(d, ssq), F))
(* A uniform single precision number is a multiple of 2^-23 below one.      *)
CanSwap(ls) == ls > -17 * ONE
MustSwap(ls) == ls >= 0
SwapProb(ls) == Exp(FMin(0, ls))

(* Chains of the scripted integrator: position x, number of updates b,      *)
(* potential u, variance v, schedule of the last update, identity           *)
At(seq, b) == seq[(b % Len(seq)) + 1]
Advance(P, ch, T, h) ==
  LET x == [i \in 1 .. 2 |-> ch.x[i] + At(P.dx, ch.b)[i] + (IF i = 1 THEN Mul(T, h) ELSE h)]
  IN [x |-> x, b |-> ch.b + 1,
      u |-> P.c + Dot(P.a, x) + At(P.e, ch.b) + Mul(P.g, T),
      v |-> At(P.v, ch.b) + Mul(P.vt, T),
      T |-> T, h |-> h, tag |-> ch.tag, m |-> IF ch.m < 0 THEN -1 ELSE (7 * ch.m + ch.b + 1) % 97]
(* Variance of the stochastic potential from the likelihoods of n of N      *)
(* observations: N^2 / n times their variance                               *)
Variance(lik, N) ==
  LET k == Len(lik)
      mean == FSum(lik) \div k
      var == FSum([i \in 1 .. k |-> Mul(lik[i] - mean, lik[i] - mean)]) \div k
  IN Mul(Frac(N * N, k), var)
===============================================================================
