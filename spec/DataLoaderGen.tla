---------------------------- MODULE DataLoaderGen ----------------------------
(* Schedules of operations generated from the actions of DataLoader. The     *)
(* batches are left to the implementation, only the control part of the      *)
(* actions is used. With -simulate, every behaviour of length D is printed.  *)
EXTENDS DataLoader, TLC, Json
CONSTANTS MBMax, GenKinds, D, NLoaders
VARIABLES ops, regs, done
gvars == <<vars, ops, regs, done>>
Loaders == 0 .. NLoaders - 1
Log(e) == ops' = Append(ops, e)
Handles == 0 .. 4
GInit == /\ Init0(0) /\ ops = <<>> /\ regs = Empty /\ done = FALSE
GReg == \E k \in GenKinds, mb \in 1 .. MBMax, c \in 1 .. 3, s \in {-1, -2, 0, 1, 7},
           ld \in Loaders :
  LET h == Cardinality(DOMAIN regs) IN
  /\ h <= 4
  /\ regs' = Put(regs, h, [kind |-> k, mb |-> mb, cache |-> c])
  /\ Log([op |-> "reg", h |-> h, ld |-> ld, kind |-> k, mb |-> mb, cache |-> c,
          seed |-> IF s = -2 THEN -1 ELSE s])
  /\ UNCHANGED ckpts
(* A second chain registered in the same way as an earlier one               *)
GTwin == \E g \in DOMAIN regs, s \in {-1, 0, 1, 7}, ld \in Loaders :
  LET h == Cardinality(DOMAIN regs) r == regs[g] IN
  /\ h <= 4
  /\ regs' = Put(regs, h, r)
  /\ Log([op |-> "reg", h |-> h, ld |-> ld, kind |-> r.kind, mb |-> r.mb,
          cache |-> r.cache, seed |-> s])
  /\ UNCHANGED ckpts
GGet == \E h \in DOMAIN regs, copy \in 1 .. 12 :
  /\ Log([op |-> "get", h |-> h]) /\ UNCHANGED <<regs, ckpts>>
GSave == \E h \in DOMAIN regs, k \in {"k1", "k2", "k3"}, copy \in 1 .. 2 :
  /\ ckpts' = Put(ckpts, k, regs[h])
  /\ Log([op |-> "save", h |-> h, k |-> k]) /\ UNCHANGED regs
GLoad == \E h \in DOMAIN regs, k \in DOMAIN ckpts, copy \in 1 .. 6 :
  /\ SameWay(regs[h], ckpts[k])
  /\ Log([op |-> "load", h |-> h, k |-> k]) /\ UNCHANGED <<regs, ckpts>>
GNext ==
  \/ /\ Len(ops) < D
     /\ \/ Cardinality(DOMAIN regs) < 2 /\ GReg
        \/ Cardinality(DOMAIN regs) \in 1 .. 4 /\ GTwin
        \/ GGet \/ GSave \/ GLoad
     /\ UNCHANGED <<n, chains, memo, done>>
  \/ /\ Len(ops) = D /\ ~done
     /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
     /\ done' = TRUE /\ UNCHANGED <<vars, ops, regs>>
GSpec == GInit /\ [][GNext]_gvars
===============================================================================
