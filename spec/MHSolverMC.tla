------------------------------- MODULE MHSolverMC ------------------------------
(***************************************************************************)
(* Two finite models of the corrected solvers.                             *)
(*                                                                         *)
(* 1. Stationarity. Positions are the integers modulo Q, momenta are the   *)
(* integers modulo Q, the proposal is a reversible map of the phase space  *)
(* (x + p/2 kicked by a force, x + p/2 again), the density is any positive *)
(* function w of the position times a symmetric one of the momentum. With  *)
(* acceptance min(1, w'/w) and reversal of the momentum after rejections   *)
(* the density is invariant. (All probabilities times the density: the     *)
(* flow from z to its proposal is min(w(z), w(z')).)                       *)
(*                                                                         *)
(* 2. Histories. Every sequence of accepted and rejected proposals keeps   *)
(* the potential the one of the position, the model state the one which    *)
(* belongs to the position, and uses no batch and no key twice.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Q, MaxLen, Weights, Variant
VARIABLES f, w, x, m, u, b, key, used, keys, n, last
vars == <<f, w, x, m, u, b, key, used, keys, n, last>>
Ring == 0 .. Q - 1
M(e) == e % Q
Min2(i, j) == IF i < j THEN i ELSE j
Flip(z) == <<z[1], M(-z[2])>>
Psi(z) == LET y == M(z[1] + z[2])
              p1 == M(z[2] + f[y])
          IN <<M(y + p1), p1>>
Phase == Ring \X Ring
(* weight of the momentum, symmetric                                        *)
Wp(p) == IF p = 0 THEN 2 ELSE 1
W(z) == w[z[1]] * Wp(z[2])
Back(z) == CHOOSE y \in Phase : Psi(y) = z
(* Density after one step                                                   *)
Flow(z) ==
  LET rej == IF Variant = "noflip" THEN z ELSE Flip(z)
      ar(y) == IF Variant = "noweight" THEN W(y) ELSE Min2(W(y), W(Psi(y)))
  IN ar(Back(z)) + W(rej) - ar(rej)
Reversible == n = 0 => \A z \in Phase : Psi(Flip(Psi(z))) = Flip(z)
Stationary == n = 0 => \A z \in Phase : Flow(z) = W(z)

Full(y) == w[y] * 10
MInit == /\ f \in [Ring -> Ring] /\ w \in [Ring -> Weights]
         /\ x = 0 /\ m = <<0>> /\ u = Full(0) /\ b = 0 /\ key = 0
         /\ used = {} /\ keys = {} /\ n = 0 /\ last = TRUE
(* The proposal moves anywhere, its model state is marked by the batch       *)
Step ==
  /\ n < MaxLen
  /\ \E y \in Ring, acc \in BOOLEAN :
       LET m1 == <<n + 1>>
           rb == IF Variant = "keepdata" /\ ~acc THEN b ELSE b + 1
       IN /\ used' = IF b \in used THEN used \cup {-1} ELSE used \cup {b}
          /\ keys' = IF key \in keys THEN keys \cup {-1} ELSE keys \cup {key}
          /\ b' = rb
          /\ key' = IF Variant = "keepkey" /\ ~acc THEN key ELSE key + 1
          /\ x' = IF acc THEN y ELSE x
          /\ m' = IF acc \/ Variant = "newmst" THEN m1 ELSE m
          /\ u' = IF acc \/ Variant = "newpot" THEN Full(y) ELSE u
          /\ n' = n + 1 /\ last' = acc
          /\ UNCHANGED <<f, w>>
MSpec == MInit /\ [][Step]_vars
PotentialOfPosition == u = Full(x)
Fresh == -1 \notin used /\ -1 \notin keys
Atomic == [][IF last' THEN m' = <<n + 1>> /\ u' = Full(x')
             ELSE x' = x /\ u' = u /\ m' = m]_vars
===============================================================================
