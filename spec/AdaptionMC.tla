------------------------------ MODULE AdaptionMC ------------------------------
(***************************************************************************)
(* The online recursion of the mass adaption over the field of Q elements  *)
(* (Q prime, more than the number of samples): for every sequence of two-  *)
(* dimensional samples and every burn-in, the accumulated sum of squares   *)
(* is the one around the final mean and the mass changes exactly once.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Q, MaxLen, Vals, Variant
VARIABLES xs, it, mean, ssq, inv, burnin, changes
vars == <<xs, it, mean, ssq, inv, burnin, changes>>
F == 0 .. Q - 1
M(e) == e % Q
InvTab == [a \in 1 .. Q - 1 |-> CHOOSE y \in F : M(a * y) = 1]
Inv(a) == InvTab[M(a)]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
None == <<-1, -1, -1>>

AInit == /\ xs = <<>> /\ it = 0 /\ mean = <<0, 0>> /\ ssq = <<0, 0, 0>>
         /\ inv = None /\ burnin \in 1 .. MaxLen /\ changes = 0
Update(x) ==
  LET n == it + 1
      w == Inv(n)
      mu == [i \in 1 .. 2 |-> M((n - 1) * w * mean[i] + w * x[i])]
      d == [i \in 1 .. 2 |-> M(x[i] - mean[i])]
      e == IF Variant = "newmean" THEN [i \in 1 .. 2 |-> M(x[i] - mu[i])]
           ELSE IF Variant = "oldmean" THEN d
           ELSE [i \in 1 .. 2 |-> M(x[i] - mu[i])]
      d1 == IF Variant = "newmean" THEN e ELSE d
      s == <<M(ssq[1] + d1[1] * e[1]), M(ssq[2] + d1[2] * e[2]), M(ssq[3] + d1[1] * e[2])>>
      change == CASE Variant = "late" -> n = burnin + 1
                  [] Variant = "keep" -> n >= burnin
                  [] OTHER -> n = burnin
  IN /\ it' = n /\ mean' = mu /\ ssq' = s /\ xs' = Append(xs, x)
     /\ inv' = IF change THEN [i \in 1 .. 3 |-> M(s[i] * w)] ELSE inv
     /\ changes' = changes + (IF change THEN 1 ELSE 0)
     /\ UNCHANGED burnin
ANext == it < MaxLen /\ \E x \in Vals \X Vals : Update(x)
ASpec == AInit /\ [][ANext]_vars

(* n^2 cov = n sum x y - sum x sum y                                        *)
Cov(s, i, j) ==
  LET n == Len(s)
      u == [k \in 1 .. n |-> s[k][i]]
      v == [k \in 1 .. n |-> s[k][j]]
      uv == [k \in 1 .. n |-> u[k] * v[k]]
  IN M((n * Sum(uv) - Sum(u) * Sum(v)) * Inv(n) * Inv(n))
MeanOk == it > 0 => \A i \in 1 .. 2 : M(it * mean[i]) = M(Sum([k \in 1 .. it |-> xs[k][i]]))
SsqOk == it > 0 => \A q \in {<<1, 1, 1>>, <<2, 2, 2>>, <<3, 1, 2>>} :
           ssq[q[1]] = M(it * Cov(xs, q[2], q[3]))
MassOk == IF it < burnin THEN inv = None
          ELSE LET s == SubSeq(xs, 1, burnin)
               IN inv = <<Cov(s, 1, 1), Cov(s, 2, 2), Cov(s, 1, 2)>>
Once == changes = (IF it < burnin THEN 0 ELSE 1)
===============================================================================
