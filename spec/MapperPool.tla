------------------------------ MODULE MapperPool ------------------------------
(***************************************************************************)
(* Mappings over the complete dataset which acquire their data state by    *)
(* themselves from a pool (property C06). Mappings run in several threads  *)
(* and may be nested; every one takes a state out of the pool, or creates  *)
(* one if none is unused, sweeps over the data and puts the state back.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg,      \* [n, mb, atomic]
          created,  \* data states created so far
          pool,     \* unused data states (sequence, most recent last)
          maps,     \* mapping -> [ph, st, k]; ph: want, run, done
          peak      \* largest number of mappings running at the same time
vars == <<cfg, created, pool, maps, peak>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
N == cfg.n
K == (N + cfg.mb - 1) \div cfg.mb
None == -1

(* One state is created in advance                                         *)
Init0(c, s) == /\ cfg = c /\ created = {s} /\ pool = {s}
               /\ maps = Empty /\ peak = 1

Active == {m \in DOMAIN maps : maps[m].ph # "done"}
Begin(m) ==
  /\ m \notin DOMAIN maps
  /\ maps' = Put(maps, m, [ph |-> "want", st |-> None, k |-> 0])
  /\ peak' = Max(peak, 1 + Cardinality(Active))
  /\ UNCHANGED <<cfg, created, pool>>

(* Take an unused state, or a new one if none is unused                    *)
AcquireNew(m, s) ==
  /\ m \in DOMAIN maps /\ maps[m].ph = "want" /\ pool = {} /\ s \notin created
  /\ created' = created \cup {s}
  /\ maps' = [maps EXCEPT ![m].ph = "run", ![m].st = s]
  /\ UNCHANGED <<cfg, pool, peak>>
Acquire(m, s) ==
  /\ m \in DOMAIN maps /\ maps[m].ph = "want" /\ s \in pool
  /\ pool' = pool \ {s}
  /\ maps' = [maps EXCEPT ![m].ph = "run", ![m].st = s]
  /\ UNCHANGED <<cfg, created, peak>>

(* The function of mapping m is called with batch x (mask v), taken from    *)
(* data state s, and the carry c (number of previous calls).                *)
Valid(k) == Min(cfg.mb, N - k * cfg.mb)
Call(m, s, x, v, c) ==
  /\ m \in DOMAIN maps /\ maps[m].ph = "run" /\ maps[m].k < K
  /\ s = maps[m].st
  /\ LET k == maps[m].k IN
     /\ c = k
     /\ Len(x) = cfg.mb /\ Len(v) = cfg.mb
     /\ \A i \in 1 .. cfg.mb : v[i] = IF i <= Valid(k) THEN 1 ELSE 0
     /\ \A i \in 1 .. Valid(k) : x[i] = k * cfg.mb + i - 1
  /\ maps' = [maps EXCEPT ![m].k = @ + 1]
  /\ UNCHANGED <<cfg, created, pool, peak>>

Release(m) ==
  /\ m \in DOMAIN maps /\ maps[m].ph = "run" /\ maps[m].k = K
  /\ maps' = [maps EXCEPT ![m].ph = "free"]
  /\ pool' = pool \cup {maps[m].st}
  /\ UNCHANGED <<cfg, created, peak>>

End(m, c) ==
  /\ m \in DOMAIN maps /\ maps[m].ph = "free" /\ c = K
  /\ maps' = [maps EXCEPT ![m].ph = "done"]
  /\ UNCHANGED <<cfg, created, pool, peak>>

(* Functions which are not vectorized: one result per observation in order,  *)
(* and the carry handed on from batch to batch.                              *)
Unbatched(res, carries, last) ==
  /\ res = [i \in 1 .. N |-> i - 1]
  /\ carries = [i \in 1 .. N |-> (i - 1) \div cfg.mb]
  /\ last = K

Running == {m \in DOMAIN maps : maps[m].ph = "run"}
Exclusive == \A a, b \in Running : a # b => maps[a].st # maps[b].st
Partition == /\ \A m \in Running : maps[m].st \in created \ pool
             /\ pool \cup {maps[m].st : m \in Running} = created
NoSurplus == Cardinality(created) <= Max(1, peak)
AllReusable == Active = {} => pool = created
===============================================================================
