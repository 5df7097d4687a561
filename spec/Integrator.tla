------------------------------ MODULE Integrator ------------------------------
(***************************************************************************)
(* Update rules of the integrators (property C14), for a potential         *)
(*     U_b(x) = c_b + <a_b, x> + 1/2 sum_j k_j x_j^2                       *)
(* of the b-th mini-batch. Positions and momenta are flattened vectors of  *)
(* fixed-point numbers. Every random draw is an argument of the rule, so   *)
(* that the same rule states the deterministic part of the motion, and, as *)
(* it is affine, mean and covariance of the random part: the covariance is *)
(* the sum over all draws of the outer products of the responses to a unit *)
(* impulse of this draw.                                                   *)
(*                                                                         *)
(* Parameters P: kind, h (step size), fr (friction, vector), fn (friction  *)
(* left after noise estimation, vector), temp, minv / m / ms (inverse,     *)
(* mass, square root: matrices), steps, a, c (sequences, used cyclically), *)
(* k, ad (adaption: on, alpha, lmbd).                                      *)
(* State s: x, p, b (batches drawn), mst (model state), ks, ke, pot, en    *)
(* (kinetic energies, potential, accumulated energy), v (adaption), i      *)
(* (number of random draws).                                               *)
(***************************************************************************)
EXTENDS FixedPoint

Dim(P) == Len(P.k)
Zero(n) == [j \in 1 .. n |-> 0]
MatVec(M, v) == [i \in 1 .. Len(M) |-> Dot(M[i], v)]
VSub(u, v) == [i \in 1 .. Len(u) |-> u[i] - v[i]]
At(seq, b) == seq[(b % Len(seq)) + 1]

Half == ONE \div 2
(* lin: only the linear part of the motion                                  *)
Grad(P, b, x, lin) ==
  LET ab == At(P.a, b)
  IN [j \in 1 .. Dim(P) |-> (IF lin THEN 0 ELSE ab[j]) + Mul(P.k[j], x[j])]
Pot(P, b, x) == At(P.c, b) + Dot(At(P.a, b), x)
                + Mul(Half, Dot(P.k, VMul(x, x)))
Kin(P, p) == Mul(Half, Dot(p, MatVec(P.minv, p)))
NextMst(mst, b) == IF mst < 0 THEN mst ELSE (7 * mst + b + 1) % 997

(* The i-th draw: a unit impulse n = [i, v] or nothing (i = 0)               *)
Xi(P, n, i) == IF n.i = i THEN n.v ELSE Zero(Dim(P))
NoNoise == [i |-> 0, v |-> <<>>]

----------------------------------------------------------------------------
Obabo(P, s, n, lin) ==
  LET perm == Exp(-Mul(P.fr[1], P.h))
      c == Sqrt(perm)
      q == Sqrt(Mul(ONE - perm, P.temp))
      h2 == P.h \div 2
      p1 == VAdd(VScale(c, s.p), VScale(q, MatVec(P.ms, Xi(P, n, s.i + 1))))
      g0 == Grad(P, s.b, s.x, lin)
      p2 == VSub(p1, VScale(h2, g0))
      x1 == VAdd(s.x, VScale(P.h, MatVec(P.minv, p2)))
      g1 == Grad(P, s.b + 1, x1, lin)
      p3 == VSub(p2, VScale(h2, g1))
      p4 == VAdd(VScale(c, p3), VScale(q, MatVec(P.ms, Xi(P, n, s.i + 2))))
  IN IF lin THEN [s EXCEPT !.x = x1, !.p = p4, !.b = @ + 2, !.i = @ + 2]
     ELSE [s EXCEPT !.x = x1, !.p = p4, !.b = @ + 2, !.i = @ + 2,
             !.mst = NextMst(NextMst(s.mst, s.b), s.b + 1),
             !.ks = @ + Kin(P, p1), !.ke = @ + Kin(P, p3),
             !.pot = Mul(Half, Pot(P, s.b, s.x) + Pot(P, s.b + 1, x1))]

Drift(P, s, w) == [s EXCEPT !.x = VAdd(@, VScale(w, MatVec(P.minv, s.p)))]
(* First step of a call: half drift, otherwise full drift                    *)
Leap(P, s0, n, lin, first) ==
  LET s == IF first THEN s0 ELSE Drift(P, s0, P.h)
      hf == Mul(P.h, P.fr[1])
      g == Grad(P, s.b, s.x, lin)
      q == Sqrt(4 * hf)
      num == VAdd(VSub(VScale(ONE - hf, s.p), VScale(P.h, g)),
                  VScale(q, MatVec(P.ms, Xi(P, n, s.i + 1))))
      p1 == VScale(Div(ONE, ONE + hf), num)
  IN [s EXCEPT !.p = p1, !.b = @ + 1, !.i = @ + 1,
        !.mst = IF lin THEN @ ELSE NextMst(@, s.b),
        !.en = IF lin THEN @
               ELSE @ + Mul(P.h \div 2, Dot(VAdd(s.p, p1), MatVec(P.minv, g)))]

Sghmc(P, s, n, lin) ==
  LET vel == MatVec(P.minv, s.p)
      x1 == VAdd(s.x, VScale(P.h, vel))
      g == Grad(P, s.b, x1, lin)
      p1 == VSub(VSub(s.p, VScale(P.h, VMul(P.fr, vel))), VScale(P.h, g))
      xi == Xi(P, n, s.i + 1)
      p2 == [j \in 1 .. Dim(P) |-> p1[j] + Mul(Sqrt(Mul(2 * P.h, P.fn[j])), xi[j])]
  IN [s EXCEPT !.x = x1, !.p = p2, !.b = @ + 1, !.i = @ + 1,
        !.mst = IF lin THEN @ ELSE NextMst(@, s.b),
        !.pot = IF lin THEN @ ELSE Pot(P, s.b, x1)]

(* RMSprop: v is updated with the gradient before it is used. The manifold   *)
(* of the linear part is the one of the unperturbed motion (given by v).     *)
AdaptV(P, v, g) == [j \in 1 .. Dim(P) |->
   Mul(P.ad.alpha, v[j]) + Mul(ONE - P.ad.alpha, Mul(g[j], g[j]))]
Manifold(P, v) == [j \in 1 .. Dim(P) |->
   IF P.ad.on = 1 THEN Div(ONE, P.ad.lmbd + Sqrt(v[j])) ELSE ONE]
Langevin(P, s, n, lin) ==
  LET g == Grad(P, s.b, s.x, lin)
      v1 == IF P.ad.on = 1 THEN (IF lin THEN s.v ELSE AdaptV(P, s.v, g)) ELSE s.v
      G == Manifold(P, v1)
      q == Sqrt(Mul(2 * P.temp, P.h))
      xi == Xi(P, n, s.i + 1)
  IN [s EXCEPT !.x = [j \in 1 .. Dim(P) |-> @[j] - Mul(P.h, Mul(G[j], g[j]))
                        + Mul(q, Mul(Sqrt(G[j]), xi[j]))],
        !.b = @ + 1, !.i = @ + 1, !.v = v1,
        !.mst = IF lin THEN @ ELSE NextMst(@, s.b),
        !.pot = IF lin THEN @ ELSE Pot(P, s.b, s.x)]

RECURSIVE Steps(_, _, _, _, _)
Steps(P, s, n, lin, r) ==
  IF r = 0 THEN s
  ELSE Steps(P, CASE P.kind = "obabo" -> Obabo(P, s, n, lin)
                  [] P.kind = "amagold" -> Leap(P, s, n, lin, r = P.steps)
                  [] P.kind = "sghmc" -> Sghmc(P, s, n, lin)
                  [] OTHER -> Langevin(P, s, n, lin),
             n, lin, r - 1)

(* One call of an integrator. SGHMC draws a new momentum first.              *)
Call(P, s, n, lin) ==
  CASE P.kind = "amagold" ->
         LET s1 == Steps(P, Drift(P, [s EXCEPT !.en = 0], P.h \div 2), n, lin, P.steps)
         IN Drift(P, s1, P.h \div 2)
    [] P.kind = "sghmc" ->
         Steps(P, [s EXCEPT !.p = MatVec(P.ms, Xi(P, n, s.i + 1)), !.i = @ + 1],
               n, lin, P.steps)
    [] OTHER -> Steps(P, s, n, lin, P.steps)
RECURSIVE Calls(_, _, _, _, _)
Calls(P, s, n, lin, r) ==
  IF r = 0 THEN s ELSE Calls(P, Call(P, s, n, lin), n, lin, r - 1)

(* Random draws per call                                                     *)
DrawsPerCall(P) == CASE P.kind = "obabo" -> 2 * P.steps
                     [] P.kind = "sghmc" -> 1 + P.steps
                     [] OTHER -> P.steps
BatchesPerCall(P) == IF P.kind = "obabo" THEN 2 * P.steps ELSE P.steps

----------------------------------------------------------------------------
(* SGHMC without friction, backwards in time (its momentum is not known at   *)
(* the beginning).                                                           *)
RECURSIVE Back(_, _, _, _, _)
Back(P, x, p, b, r) ==
  IF r = 0 THEN [x |-> x, p |-> p]
  ELSE LET p0 == VAdd(p, VScale(P.h, Grad(P, b - 1, x, FALSE)))
       IN Back(P, VSub(x, VScale(P.h, MatVec(P.minv, p0))), p0, b - 1, r - 1)

----------------------------------------------------------------------------
(* Mean and covariance of z = x \o p after some calls, starting from fixed   *)
(* positions, and fixed or (AMAGOLD, ini) random momenta with covariance M.  *)
Unit(P, j) == [i \in 1 .. Dim(P) |-> IF i = j THEN ONE ELSE 0]
Z(s) == s.x \o s.p
Blank(P, s) == [s EXCEPT !.x = Zero(Dim(P)), !.p = Zero(Dim(P)), !.i = 0]
MeanZ(P, s, calls) == Z(Calls(P, s, NoNoise, FALSE, calls))
Responses(P, s, calls, ini, vend) ==
  LET s0 == [Blank(P, s) EXCEPT !.v = vend]
      draws == DrawsPerCall(P) * calls
      noise == [q \in 1 .. draws * Dim(P) |->
         Z(Calls(P, s0, [i |-> ((q - 1) \div Dim(P)) + 1,
                         v |-> Unit(P, ((q - 1) % Dim(P)) + 1)], TRUE, calls))]
      start == IF ini = 0 THEN <<>> ELSE [j \in 1 .. Dim(P) |->
         Z(Calls(P, [s0 EXCEPT !.p = MatVec(P.ms, Unit(P, j))], NoNoise, TRUE, calls))]
  IN noise \o start
CovZ(R, n) == [i \in 1 .. n |-> [j \in 1 .. n |->
                 FSum([q \in 1 .. Len(R) |-> Mul(R[q][i], R[q][j])])]]
===============================================================================
