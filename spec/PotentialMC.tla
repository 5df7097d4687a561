------------------------------ MODULE PotentialMC ------------------------------
(***************************************************************************)
(* The sweep over batches as a machine on integers: every dataset of up to *)
(* MaxN observations with log-likelihoods in Vals, all batch sizes, all    *)
(* contents of the fillers. Each batch contributes its stochastic          *)
(* potential with the scaling N/n undone.                                  *)
(* At the end the sum is the full potential, and on average over all       *)
(* batches the stochastic potential is the full one.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, Vals, PriorV, Variant
VARIABLES data, mb, done, acc, filler, state
vars == <<data, mb, done, acc, filler, state>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
N == Len(data)
K == (N + mb - 1) \div mb
(* All quantities times N * mb, to remain in the integers                   *)
BatchOf(b) == [i \in 1 .. mb |-> IF (b - 1) * mb + i <= N THEN data[(b - 1) * mb + i] ELSE filler]
MaskOf(b) == [i \in 1 .. mb |-> IF (b - 1) * mb + i <= N THEN 1 ELSE 0]
Valid(b) == Sum(MaskOf(b))
Masked(b) == Sum([i \in 1 .. mb |-> BatchOf(b)[i] * (IF Variant = "nomask" THEN 1 ELSE MaskOf(b)[i])])
(* -N/n sum, scaling undone by n/N                                          *)
Contribution(b) ==
  CASE Variant = "mean" -> (N * mb * Masked(b)) \div Valid(b)   \* mean of valid entries
    [] Variant = "priorbatch" -> N * mb * (Masked(b) + PriorV)
    [] OTHER -> N * mb * Masked(b)
Undone(b) == IF Variant = "noundo" THEN (Contribution(b) * N) \div mb ELSE Contribution(b)

MInit == /\ data \in UNION {[1 .. n -> Vals] : n \in 1 .. MaxN}
         /\ mb \in 1 .. Len(data)
         /\ filler \in Vals
         /\ done = 0 /\ acc = 0 /\ state = <<>>
Step == /\ done < K
        /\ acc' = acc - Undone(done + 1)
        /\ done' = done + 1
           (* the model state is handed from batch to batch                  *)
        /\ state' = Append(state, done + 1)
        /\ UNCHANGED <<data, mb, filler>>
Finish == /\ done = K
          /\ acc' = acc - (IF Variant = "priorbatch" THEN 0 ELSE N * mb * PriorV)
          /\ done' = K + 1 /\ UNCHANGED <<data, mb, filler, state>>
MSpec == MInit /\ [][Step \/ Finish]_vars
FullSum == done = K + 1 => acc = -(N * mb) * (Sum(data) + PriorV)
EachBatchOnce == done = K + 1 => state = [b \in 1 .. K |-> b]
(* Sum over all batches of n observations drawn independently:              *)
(* sum of (N/n sum LL) = N^n (sum of all LL)                                *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Draws == [1 .. mb -> 1 .. N]
Pw(a, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN a ELSE IF n = 2 THEN a * a
            ELSE IF n = 3 THEN a * a * a ELSE a * a * a * a
Unbiased ==
  done = 0 /\ mb <= 3 =>
    N * SumOver([f \in Draws |-> Sum([i \in 1 .. mb |-> data[f[i]]])], Draws)
      = mb * Pw(N, mb) * Sum(data)
===============================================================================
