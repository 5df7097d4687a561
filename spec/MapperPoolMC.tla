----------------------------- MODULE MapperPoolMC -----------------------------
(* Exhaustive interleavings of mappings in several threads, some of which     *)
(* run a nested mapping within each call of their function.                   *)
EXTENDS MapperPool, TLC
CONSTANTS Threads, Nested, NN, MB, MaxMaps, Atomic
VARIABLES stack,   \* thread -> stack of its mappings
          peek     \* thread -> state read from the pool (broken variant)
mvars == <<vars, stack, peek>>
MInit == /\ Init0([n |-> NN, mb |-> MB], 0)
         /\ stack = [t \in Threads |-> <<>>] /\ peek = [t \in Threads |-> None]
NewMap == Cardinality(DOMAIN maps)
Top(t) == stack[t][Len(stack[t])]
Rows(k) == [i \in 1 .. MB |-> (k * MB + i - 1) % NN]
Mask(k) == [i \in 1 .. MB |-> IF i <= Valid(k) THEN 1 ELSE 0]
Start(t) ==
  /\ NewMap < MaxMaps
  /\ \/ stack[t] = <<>>
     \/ t \in Nested /\ Len(stack[t]) = 1 /\ maps[Top(t)].ph = "run"
  /\ Begin(NewMap) /\ stack' = [stack EXCEPT ![t] = Append(@, NewMap)]
  /\ UNCHANGED peek
(* get_cache_state: look up or create under the lock                          *)
Get(t) ==
  /\ stack[t] # <<>> /\ maps[Top(t)].ph = "want"
  /\ IF Atomic
     THEN /\ \/ AcquireNew(Top(t), Cardinality(created))
             \/ \E s \in pool : Acquire(Top(t), s)
          /\ UNCHANGED peek
     ELSE \* read first, take later (a lock that is missing)
          \/ /\ peek[t] = None /\ \E s \in pool : peek' = [peek EXCEPT ![t] = s]
             /\ UNCHANGED vars
          \/ /\ peek[t] # None
             /\ maps' = [maps EXCEPT ![Top(t)].ph = "run", ![Top(t)].st = peek[t]]
             /\ pool' = pool \ {peek[t]} /\ peek' = [peek EXCEPT ![t] = None]
             /\ UNCHANGED <<cfg, created, peak>>
  /\ UNCHANGED stack
Step(t) ==
  /\ stack[t] # <<>> /\ maps[Top(t)].ph = "run"
  /\ LET m == Top(t) IN Call(m, maps[m].st, Rows(maps[m].k), Mask(maps[m].k), maps[m].k)
  /\ UNCHANGED <<stack, peek>>
Put_(t) == /\ stack[t] # <<>> /\ Release(Top(t)) /\ UNCHANGED <<stack, peek>>
Fin(t) == /\ stack[t] # <<>> /\ End(Top(t), K)
          /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
          /\ UNCHANGED peek
MNext == \E t \in Threads : Start(t) \/ Get(t) \/ Step(t) \/ Put_(t) \/ Fin(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads :
            WF_mvars(Get(t) \/ Step(t) \/ Put_(t) \/ Fin(t))
(* Every mapping that has been started finishes                               *)
Finishes == \A m \in 0 .. MaxMaps - 1 :
   (m \in DOMAIN maps) ~> (m \in DOMAIN maps /\ maps[m].ph = "done")
===============================================================================
