----------------------------- MODULE DualAveraging -----------------------------
(***************************************************************************)
(* Dual averaging of the logarithm of the step size.                       *)
(*                                                                         *)
(* Parameters p: ini initial step size, n0 burn-in, al target acceptance   *)
(* ratio, t0 stabilization, ka decay, ga speed. State: it iterations so    *)
(* far, h averaged error of the acceptance ratio, x logarithm of the step  *)
(* size, which is used in iteration it.                                    *)
(***************************************************************************)
EXTENDS FixedPoint
Init0(p) == [it |-> 0, h |-> 0, x |-> Ln(p.ini)]
LN10 == 2414435
(* Weights 1 / (m + t0) and m ^ -ka in iteration m = 1, 2, ...              *)
Wh(p, m) == Div(ONE, m * ONE + p.t0)
Lr(p, m) == IF m = 1 THEN ONE ELSE Exp(-Mul(p.ka, Ln(m * ONE)))
RootM(m) == Sqrt(m * ONE)
Target(p, m, h) == Ln(p.ini) + LN10 - Mul(Div(RootM(m), p.ga), h)
Update(p, s, acc) ==
  LET m == s.it + 1
      wh == Wh(p, m)
      h == Mul(ONE - wh, s.h) + Mul(wh, p.al - acc)
      lr == Lr(p, m)
  IN [it |-> m, h |-> h,
      x |-> IF s.it < p.n0 THEN Mul(ONE - lr, s.x) + Mul(lr, Target(p, m, h)) ELSE s.x]
===============================================================================
