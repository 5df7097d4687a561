-------------------------------- MODULE MHSolver -------------------------------
(***************************************************************************)
(* Metropolis-Hastings corrected solvers AMAGOLD and SGGMC (property C12)  *)
(* around a scripted integrator.                                           *)
(*                                                                         *)
(* State s: x, p (position, momentum: vectors), m (model state), u (full   *)
(* potential of x), en (potential field of the integrator), b (batches     *)
(* consumed), mass [on, n, sum] (mass adaption).                           *)
(* Proposal q: x, p, m, en, w (energy entering the acceptance: accumulated *)
(* energy for AMAGOLD, change of the kinetic energy for SGGMC), b, ok      *)
(* (energies are defined), fin (finite).                                   *)
(***************************************************************************)
EXTENDS FixedPoint
At(seq, b) == seq[(b % Len(seq)) + 1]
Half(a) == a \div 2

(* Full potential and model states of the script                            *)
FullU(P, x) == P.c + Dot(P.a, x) + Half(Dot(P.k, VMul(x, x)))
FMst(m, b) == IF m < 0 THEN m ELSE (7 * m + b + 1) % 97
GMst(m) == IF m < 0 THEN m ELSE (5 * m + 3) % 97

(* Inverse mass (first component) of the scripted adaption                  *)
InvMass(P, mass) ==
  IF mass.on = 0 THEN 0 ELSE P.ini + Half(Half(mass.sum[1])) + mass.n * (ONE \div 8)
MassUpdate(mass, x) == IF mass.on = 0 THEN mass
                       ELSE [mass EXCEPT !.n = @ + 1, !.sum = VAdd(@, x)]

(* Scripted integrator                                                      *)
Proposal(P, s) ==
  LET inv == InvMass(P, s.mass)
      b == s.b
  IN [x |-> VAdd(s.x, At(P.dx, b)),
      p |-> VAdd(VAdd(s.p, At(P.dp, b)), <<inv, 0>>),
      m |-> FMst(s.m, b),
      en |-> At(P.pv, b) + (IF P.kind = "amagold" THEN At(P.e, b) - At(P.pv, b) + Half(inv) ELSE 0),
      w |-> At(P.e, b) + Half(inv),
      b |-> b + 1,
      sp |-> At(P.sp, b)]

(* Logarithm of the acceptance probability                                  *)
Raw(P, s, q, u1) ==
  IF P.kind = "amagold" THEN s.u - u1 + q.w ELSE -Div(u1 - s.u + q.w, P.temp)
Alpha(P, s, q, u1) == IF q.sp # 0 THEN 0 ELSE Exp(FMin(0, Raw(P, s, q, u1)))

Accepted(P, s, q, u1) ==
  [x |-> q.x, p |-> q.p, m |-> GMst(q.m), u |-> u1, en |-> q.en, b |-> q.b,
   mass |-> MassUpdate(s.mass, q.x)]
Rejected(P, s, q) ==
  [s EXCEPT !.p = VScale(-ONE, @), !.b = q.b, !.mass = MassUpdate(@, s.x)]
CanAccept(P, s, q, u1) == Alpha(P, s, q, u1) > 0
CanReject(P, s, q, u1) == q.sp # 0 \/ Raw(P, s, q, u1) < (IF P.real = 1 THEN 100 ELSE 0)
===============================================================================
