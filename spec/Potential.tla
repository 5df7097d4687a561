------------------------------- MODULE Potential -------------------------------
(***************************************************************************)
(* Stochastic and full potentials (property C15) of a model with the       *)
(* log-likelihood                                                          *)
(*   LL(r, w, m) = x w1 + y w2 - c/2 (w1 - x)^2 + e/4 m w2                 *)
(* of the observation r = <<x, y>> with the parameters w = <<w1, w2>> and  *)
(* the model state m, which an evaluation replaces by Next(m, r), and with *)
(* the log-prior  -q/2 (w1^2 + w2^2) + g w1.                               *)
(*                                                                         *)
(* The full potential is obtained by a sweep over batches; the state of    *)
(* the sweep is the accumulated sum and the model state.                   *)
(***************************************************************************)
EXTENDS FixedPoint

Half(a) == a \div 2
LL(P, r, w, m) ==
  Mul(r[1], w[1]) + Mul(r[2], w[2]) - Half(Mul(P.c, Mul(w[1] - r[1], w[1] - r[1])))
  + (P.e * m * w[2]) \div 4
DLL(P, r, w, m) == <<r[1] - Mul(P.c, w[1] - r[1]), r[2] + P.e * m * (ONE \div 4)>>
Prior(P, w) == Mul(P.g, w[1]) - Half(Mul(P.q, Mul(w[1], w[1]) + Mul(w[2], w[2])))
DPrior(P, w) == <<P.g - Mul(P.q, w[1]), -Mul(P.q, w[2])>>
(* Model state -1: none                                                     *)
Next(m, r) == IF m < 0 THEN m ELSE (3 * m + 2 * (r[1] \div ONE) + (r[2] \div ONE) + 11) % 17

(* Sums over the observations of a batch marked by the mask                 *)
RECURSIVE SumLL(_, _, _, _, _)
SumLL(P, rows, mask, w, m) ==
  IF rows = <<>> THEN 0
  ELSE (IF Head(mask) = 1 THEN LL(P, Head(rows), w, m) ELSE 0)
       + SumLL(P, Tail(rows), Tail(mask), w, m)
RECURSIVE SumDLL(_, _, _, _, _)
SumDLL(P, rows, mask, w, m) ==
  IF rows = <<>> THEN <<0, 0>>
  ELSE LET r == SumDLL(P, Tail(rows), Tail(mask), w, m)
       IN IF Head(mask) = 1 THEN VAdd(DLL(P, Head(rows), w, m), r) ELSE r

Ones(n) == [i \in 1 .. n |-> 1]
Times(a, num, den) == Div(Mul(a, Fix(num)), Fix(den))

(* Stochastic potential and its gradient                                    *)
Stochastic(P, rows, mask, N, n, w, m) ==
  -Div(Times(SumLL(P, rows, mask, w, m), N, n) + Prior(P, w), P.temp)
DStochastic(P, rows, mask, N, n, w, m) ==
  LET g == VAdd(VScale(Frac(N, n), SumDLL(P, rows, mask, w, m)), DPrior(P, w))
  IN [i \in 1 .. 2 |-> -Div(g[i], P.temp)]

(* One batch of a sweep. A model state is that of some evaluation with a    *)
(* valid observation, so the sweep keeps all possible outcomes.             *)
Batch(P, S, rows, mask, w) ==
  UNION {{[m |-> Next(s.m, rows[i]),
           u |-> s.u + SumLL(P, rows, mask, w, s.m),
           d |-> VAdd(s.d, SumDLL(P, rows, mask, w, s.m))]
          : i \in {j \in DOMAIN rows : mask[j] = 1}} : s \in S}
RECURSIVE Sweep(_, _, _, _, _)
Sweep(P, S, rows, mb, w) ==
  IF rows = <<>> THEN S
  ELSE LET n == FMin(mb, Len(rows))
       IN Sweep(P, Batch(P, S, SubSeq(rows, 1, n), Ones(n), w),
                SubSeq(rows, n + 1, Len(rows)), mb, w)
FullOutcomes(P, rows, mb, w, m) ==
  {[m |-> s.m, u |-> -Div(s.u + Prior(P, w), P.temp),
    d |-> LET g == VAdd(s.d, DPrior(P, w)) IN [i \in 1 .. 2 |-> -Div(g[i], P.temp)]]
   : s \in Sweep(P, {[m |-> m, u |-> 0, d |-> <<0, 0>>]}, rows, mb, w)}
===============================================================================
