------------------------------ MODULE IntegratorMC ------------------------------
(***************************************************************************)
(* Algebraic identities of the leapfrog schemes, checked over the finite   *)
(* field of Q elements for all states, step sizes, masses, frictions,      *)
(* noises and affine forces which change from step to step. The identities *)
(* hold over the reals for the same reason (they are polynomial).          *)
(* Steps is the number of gradient evaluations.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Q, Steps, Variant
VARIABLES x, p, h, w, f, a, b, xi
F == 0 .. Q - 1
M(e) == e % Q
Inv(e) == CHOOSE y \in F : M(e * y) = 1
Two == Inv(2)
(* Gradient of the n-th batch                                              *)
G(n, y) == M((IF n % 2 = 1 THEN a ELSE 2 * a + 1) + b * y)
(* Potential of an (unchanging) force                                      *)
U(y) == M(a * y + Two * b * y * y)

(* AMAGOLD, w = 1/mass; returns <<x, p, energy>>                           *)
RECURSIVE Leap(_, _, _, _, _, _)
Leap(y, q, en, n, order, noise) ==
  IF n > Steps THEN <<M(y + Two * h * w * q), q, en>>
  ELSE LET y1 == IF n = 1 THEN M(y + (IF Variant = "fullfirst" THEN h ELSE Two * h) * w * q)
                 ELSE M(y + h * w * q)
           g == G(order[n], IF Variant = "oldgrad" THEN y ELSE y1)
           q1 == M(((1 - h * f) * q - h * g + noise[n]) * Inv(1 + h * f))
           e1 == M(en + Two * h * w * g * (q + (IF Variant = "energyold" THEN q ELSE q1)))
       IN Leap(y1, q1, e1, n + 1, order, noise)
Fwd == [i \in 1 .. Steps |-> i]
Bwd == [i \in 1 .. Steps |-> Steps + 1 - i]
NoXi == [i \in 1 .. Steps |-> 0]

(* OBABO without refreshment: <<x, p, 1/2 (K start - K end), mean change>> *)
RECURSIVE Bab(_, _, _)
Bab(y, q, n) ==
  IF n > Steps THEN <<y, q>>
  ELSE LET q1 == M(q - Two * h * G(2 * n - 1, y))
           y1 == M(y + h * w * q1)
           q2 == M(q1 - Two * h * G(2 * n, y1))
       IN Bab(y1, q2, n + 1)
RECURSIVE BabBack(_, _, _)
BabBack(y, q, n) ==
  IF n = 0 THEN <<y, q>>
  ELSE LET q1 == M(q - Two * h * G(2 * n, y))
           y1 == M(y + h * w * q1)
           q2 == M(q1 - Two * h * G(2 * n - 1, y1))
       IN BabBack(y1, q2, n - 1)

Init == /\ x \in F /\ p \in F /\ h \in 1 .. 2 /\ w \in {1, Q - 2} /\ f \in {0, 1, Q - 2}
        /\ a \in F /\ b \in {0, 1, 3} /\ xi \in {<<1, 0, 2>>, <<3, 1, 1>>}
        /\ M(1 + h * f) # 0 /\ M(1 - h * f) # 0
Next == UNCHANGED <<x, p, h, w, f, a, b, xi>>
Spec == Init /\ [][Next]_<<x, p, h, w, f, a, b, xi>>

(* Without friction: reversing the momentum, and the batches, leads back   *)
Reversible == f = 0 =>
  LET z == Leap(x, p, 0, 1, Fwd, NoXi)
      y == Leap(z[1], M(-z[2]), 0, 1, Bwd, NoXi)
  IN y[1] = x /\ M(-y[2]) = p
(* The accumulated energy is the loss of kinetic energy                    *)
EnergyBalance == f = 0 =>
  LET z == Leap(x, p, 0, 1, Fwd, NoXi)
  IN z[3] = M(Two * w * (p * p - z[2] * z[2]))
ObaboBalance ==
  LET z == Bab(x, p, 1)
      y == BabBack(z[1], M(-z[2]), Steps)
  IN y[1] = x /\ M(-y[2]) = p
(* With friction: the reversed path is a path with other noise, and its    *)
(* energy is the negative one (the acceptance ratio is reciprocal)         *)
NoiseReversal ==
  LET z == Leap(x, p, 0, 1, Fwd, xi)
  IN \E n2 \in [1 .. Steps -> F] :
       LET y == Leap(z[1], M(-z[2]), 0, 1, Bwd, n2)
       IN y[1] = x /\ M(-y[2]) = p /\ y[3] = M(-z[3])
===============================================================================
