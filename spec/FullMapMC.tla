------------------------------ MODULE FullMapMC ------------------------------
(* Exhaustive: all dataset, batch and cache sizes up to a bound, sweeps over  *)
(* two lanes in any order.                                                    *)
EXTENDS FullMap, TLC
CONSTANTS MaxN, MaxCache, NLanes
MInit == \E n \in 1 .. MaxN, mb \in 1 .. MaxN, c \in 1 .. MaxCache :
           mb <= n /\ Init0([n |-> n, mb |-> mb, cache |-> c])
Rows(L, b) == [i \in 1 .. cfg.mb |-> Row(L, b.s, i)]
Mask(b) == [i \in 1 .. cfg.mb |-> IF i <= b.v THEN 1 ELSE 0]
MNext ==
  \/ \E a \in 0 .. NLanes - 1, h \in BOOLEAN, off \in 0 .. N - 1 :
       /\ run = Idle /\ a = Cardinality(DOMAIN lanes) /\ NewLane(a, h, off)
  \/ \E a \in DOMAIN lanes : Begin(a)
  \/ /\ run # Idle /\ run.call < K
     /\ LET L == lanes[run.lane] b == NextBatch(L) IN
        Call(Rows(L, b), Mask(b), run.call)
  \/ run # Idle /\ End(run.valid, run.call)
MSpec == MInit /\ [][MNext]_vars
===============================================================================
