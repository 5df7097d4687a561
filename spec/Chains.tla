-------------------------------- MODULE Chains --------------------------------
(***************************************************************************)
(* Several chains in one run.                                              *)
(*                                                                         *)
(* A chain is a deterministic function of its initial state: Alone(c, n)   *)
(* is the history of the chain c after n steps when it runs alone. A run   *)
(* of the chains cs gives for each position the history of the chain in    *)
(* this position, whichever other chains run before, beside or after it,   *)
(* by one worker or by many. Lists of trees are stacked leaf by leaf.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Leaves are [sh |-> shape, d |-> data, row major], trees are the sequences *)
(* of their leaves                                                          *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))
Stack(ts) ==
  [k \in 1 .. Len(ts[1]) |->
     [sh |-> <<Len(ts)>> \o ts[1][k].sh, d |-> Flat([i \in 1 .. Len(ts) |-> ts[i][k].d])]]
Unstack(t) ==
  [i \in 1 .. Head(t[1].sh) |->
     [k \in 1 .. Len(t) |->
        LET sh == Tail(t[k].sh)
            z == Size(sh)
        IN [sh |-> sh, d |-> SubSeq(t[k].d, (i - 1) * z + 1, i * z)]]]
RECURSIVE SumD(_)
SumD(d) == IF d = <<>> THEN 0 ELSE Head(d) + SumD(Tail(d))
Apply(fn, t) ==
  CASE fn = "id" -> t
    [] fn = "aff" -> [k \in 1 .. Len(t) |-> [sh |-> t[k].sh, d |-> [j \in DOMAIN t[k].d |-> 3 * t[k].d[j] + 1]]]
    [] fn = "sum" -> <<[sh |-> <<>>, d |-> <<SumD(Flat([k \in 1 .. Len(t) |-> t[k].d]))>>]>>
    [] fn = "rev" -> [k \in 1 .. Len(t) |-> t[Len(t) + 1 - k]]
    [] fn = "dup" -> t \o <<[sh |-> <<2>>, d |-> <<t[1].d[1], t[Len(t)].d[1]>>]>>
Map(fn, ts) == [i \in 1 .. Len(ts) |-> Apply(fn, ts[i])]

(* Identifiers: 128 bits as four words of 32 bits, the lowest first, each    *)
(* of two halves <<high, low>>; written as eight groups of 16 bits, highest  *)
(* first                                                                    *)
Written(w) == <<w[4][1], w[4][2], w[3][1], w[3][2], w[2][1], w[2][2], w[1][1], w[1][2]>>
===============================================================================
