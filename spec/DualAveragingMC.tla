---------------------------- MODULE DualAveragingMC ----------------------------
(***************************************************************************)
(* All pairs of sequences of acceptance ratios, the first one never above  *)
(* the second: the step size starts at its initial value, is monotonic in  *)
(* the acceptance ratios, is frozen after burn-in, and acceptance above    *)
(* (below) the target during all of the burn-in moves it above (below) the *)
(* value it takes if the target is met.                                    *)
(***************************************************************************)
EXTENDS DualAveraging, TLC
CONSTANTS N0, MaxIt, Ka4, T0, Variant
VARIABLES a, b, c, all
vars == <<a, b, c, all>>
p == [ini |-> ONE \div 8, n0 |-> N0, al |-> ONE \div 2, t0 |-> T0 * ONE, ka |-> Ka4 * (ONE \div 4),
      ga |-> ONE \div 4]
Accs == {0, ONE \div 4, ONE \div 2, ONE}
Up(s, acc) ==
  LET q == CASE Variant = "late" -> [p EXCEPT !.n0 = @ + 1]
             [] OTHER -> p
      r == IF Variant = "sign" THEN ONE - acc ELSE acc
      n == Update(q, s, r)
  IN IF Variant = "never" THEN [n EXCEPT !.x = Update([q EXCEPT !.n0 = 1000], s, r).x] ELSE n
MInit == a = Init0(p) /\ b = Init0(p) /\ c = Init0(p) /\ all = "eq"
Step ==
  /\ a.it < MaxIt
  /\ \E u, v \in Accs :
       /\ u <= v
       /\ a' = Up(a, u) /\ b' = Up(b, v) /\ c' = Up(c, p.al)
       /\ all' = IF u < p.al /\ v > p.al THEN all ELSE "none"
MSpec == MInit /\ [][Step]_vars
Monotonic == a.x <= b.x + 4
Starts == a.it = 0 => Close(Exp(a.x), p.ini, 100000, 2)
Direction == all = "eq" /\ a.it > 0 /\ N0 > 0 => a.x < c.x /\ c.x < b.x
Frozen == [][a.it >= N0 => a'.x = a.x]_vars
Adapts == [][a.it < N0 /\ a.x # b.x => a' # a]_vars
===============================================================================
