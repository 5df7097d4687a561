--------------------------- MODULE ReplicaExchangeMC ---------------------------
(***************************************************************************)
(* Finite models of replica exchange.                                      *)
(*                                                                         *)
(* 1. Stationarity of the exchange without noise in the potential: levels  *)
(* 0 .. L of the potential, density 2^-(bc x + bh y) for the positions x   *)
(* and y of the cold and the hot chain (bc > bh inverse temperatures),     *)
(* exchange with probability min(1, 2^(d (x - y))), d = bc - bh.           *)
(*                                                                         *)
(* 2. Histories: every sequence of exchanges keeps both chains, advances   *)
(* each of them once per iteration with the schedule of its position, and  *)
(* the estimate sees the variance of exactly the chain which was advanced  *)
(* in the cold position.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS L, Bc, Bh, MaxLen, Variant
VARIABLES cold, hot, est, seen, n, reported
vars == <<cold, hot, est, seen, n, reported>>
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Min2(i, j) == IF i < j THEN i ELSE j
Levels == 0 .. L
D == Bc - Bh
K == L * (Bc + Bh)
Pi(x, y) == P2(K - Bc * x - Bh * y)
(* Probability times 2^(D L)                                                *)
UNIT == P2(D * L)
Prob(x, y) ==
  LET k == IF Variant = "sign" THEN D * (y - x) ELSE D * (x - y)
  IN IF k >= 0 THEN UNIT ELSE P2(D * L + k)
Rate(x, y) == IF Variant = "reject" THEN UNIT - Prob(x, y) ELSE Prob(x, y)
Stationary ==
  n = 0 => \A x, y \in Levels :
    Pi(x, y) * (UNIT - Rate(x, y)) + Pi(y, x) * Rate(y, x) = Pi(x, y) * UNIT

(* id of the chain, number of updates, how often in the cold position       *)
MInit == /\ cold = [id |-> 1, b |-> 0, c |-> 0] /\ hot = [id |-> 2, b |-> 0, c |-> 0]
         /\ est = <<>> /\ seen = <<>> /\ n = 0 /\ reported = 1
Move(ch, c) == [ch EXCEPT !.b = @ + 1, !.c = @ + c]
(* Every chain and update has another variance                              *)
Var(ch) == <<ch.id, ch.b>>
Step ==
  /\ n < MaxLen
  /\ \E swap \in BOOLEAN :
       LET c1 == Move(cold, 1)
           h1 == IF Variant = "idle" THEN hot ELSE Move(hot, 0)
           c2 == IF swap THEN h1 ELSE c1
           h2 == IF swap /\ Variant # "dup" THEN c1 ELSE h1
       IN /\ cold' = c2 /\ hot' = h2
          /\ est' = Append(est, CASE Variant = "after" -> Var(c2)
                                  [] Variant = "hot" -> Var(h1)
                                  [] OTHER -> Var(c1))
          /\ seen' = Append(seen, Var(c1))
          /\ reported' = IF Variant = "report" THEN c1.id ELSE c2.id
          /\ n' = n + 1
MSpec == MInit /\ [][Step]_vars
NothingLost == {cold.id, hot.id} = {1, 2}
BothAdvance == cold.b = n /\ hot.b = n /\ cold.c + hot.c = n
EstimateOfCold == est = seen
ReportsCold == reported = cold.id
===============================================================================
