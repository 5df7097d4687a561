-------------------------------- MODULE ChainsMC --------------------------------
(***************************************************************************)
(* 1. Every interleaving of the steps of chains with own random streams    *)
(* and equal or different initial states gives the histories the chains    *)
(* have alone. Variants share the stream or the state between the chains   *)
(* or mix up the order of the results.                                     *)
(* 2. Stack and Unstack are inverse and commute with Map for all lists of  *)
(* trees within the bounds.                                                *)
(***************************************************************************)
EXTENDS Chains
CONSTANTS C, N, Mod, Variant
VARIABLES init, pos, step, key, shared, hist, done
vars == <<init, pos, step, key, shared, hist, done>>
Ids == 1 .. C
Next1(x, k) == (3 * x + k + 1) % Mod
RECURSIVE Alone(_, _)
Alone(x, k) == IF k = N THEN <<>> ELSE LET y == Next1(x, k) IN <<y>> \o Alone(y, k + 1)
MInit == /\ init \in [Ids -> 0 .. Mod - 1] /\ pos = init /\ step = [c \in Ids |-> 0]
         /\ key = [c \in Ids |-> 0] /\ shared = 0 /\ hist = [c \in Ids |-> <<>>] /\ done = <<>>
Move(c) ==
  /\ step[c] < N
  /\ LET k == IF Variant = "stream" THEN shared ELSE key[c]
         from == IF Variant = "state" THEN pos[1] ELSE pos[c]
         y == Next1(from, k)
     IN /\ pos' = IF Variant = "state" THEN [pos EXCEPT ![1] = y] ELSE [pos EXCEPT ![c] = y]
        /\ hist' = [hist EXCEPT ![c] = Append(@, y)]
        /\ key' = [key EXCEPT ![c] = k + 1] /\ shared' = shared + 1
        /\ step' = [step EXCEPT ![c] = @ + 1]
        /\ done' = IF step[c] + 1 = N THEN Append(done, c) ELSE done
        /\ UNCHANGED init
Step == \E c \in Ids : Move(c)
MSpec == MInit /\ [][Step]_vars
Results == IF Variant = "order" THEN [i \in 1 .. C |-> hist[done[i]]] ELSE [i \in 1 .. C |-> hist[i]]
Isolated == Len(done) = C => \A c \in Ids : Results[c] = Alone(init[c], 0)

Vals == 0 .. 1
Lf(sh) == {[sh |-> sh, d |-> d] : d \in [1 .. Size(sh) -> Vals]}
Trees == {<<a, b>> : a \in Lf(<<>>), b \in Lf(<<2>>)}
Lists == UNION {[1 .. n -> Trees] : n \in 1 .. 2}
(* The broken variant splits the leaves by columns                           *)
Un(t) ==
  IF Variant # "columns" THEN Unstack(t)
  ELSE [i \in 1 .. Head(t[1].sh) |->
         [k \in 1 .. Len(t) |->
            LET sh == Tail(t[k].sh) IN
            [sh |-> sh, d |-> [j \in 1 .. Size(sh) |-> t[k].d[(j - 1) * Head(t[k].sh) + i]]]]]
Inverse == (\A c \in Ids : step[c] = 0) =>
             /\ \A ts \in Lists : Un(Stack(ts)) = ts /\ Stack(Un(Stack(ts))) = Stack(ts)
             /\ \A ts \in Lists, fn \in {"aff", "sum", "rev", "dup"} :
                  Map(fn, Un(Stack(ts))) = Un(Stack(Map(fn, ts)))
===============================================================================
