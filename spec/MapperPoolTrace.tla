---------------------------- MODULE MapperPoolTrace ----------------------------
(* Recorded concurrent mappings as behaviours of MapperPool. Taking a state   *)
(* out of the pool and putting it back is not visible from outside: these are *)
(* silent steps, the first one as late, the second one as early as possible.  *)
EXTENDS MapperPool, TraceLib
VARIABLES t, l
tvars == <<vars, t, l>>
E == TraceEv(t)[l]
Device == TraceCfg(t).device = 1    \* data on device: states are not visible

First == E.op = "call" /\ E.m \in DOMAIN maps /\ maps[E.m].ph = "want"
Holder(s) == {m \in Running : maps[m].st = s}
(* Device data: every mapping takes a state of its own                        *)
Silent ==
  IF Device /\ First
  THEN IF pool = {} THEN AcquireNew(E.m, Cardinality(created))
       ELSE Acquire(E.m, CHOOSE s \in pool : TRUE)
  ELSE
  \/ /\ First /\ E.s \in pool /\ Acquire(E.m, E.s)
  \/ /\ First /\ E.s \in created /\ E.s \notin pool
     /\ \E m \in Holder(E.s) : Release(m)
  \/ /\ E.op = "end" /\ E.m \in DOMAIN maps /\ Release(E.m)

(* States are created under the lock of the pool. A state which is unused     *)
(* according to the recording may be taken already by a mapping that has not  *)
(* called its function yet, hence the bound is checked at the end.            *)
TCreate == /\ E.s \notin created
           /\ created' = created \cup {E.s} /\ pool' = pool \cup {E.s}
           /\ UNCHANGED <<cfg, maps, peak>>
StateOf == IF Device /\ E.m \in DOMAIN maps THEN maps[E.m].st ELSE E.s
Act == CASE E.op = "begin" -> Begin(E.m)
         [] E.op = "create" -> TCreate
         [] E.op = "call" -> Call(E.m, StateOf, E.x, E.v, E.c)
         [] E.op = "end" -> End(E.m, E.c) /\ (IF E.res = <<>> THEN TRUE ELSE
                               E.res = [i \in 1 .. N |-> i - 1])
         [] E.op = "unbatched" -> Unbatched(E.res, E.carries, E.c) /\ UNCHANGED vars
         [] E.op = "fin" -> Active = {} /\ NoSurplus /\ UNCHANGED vars
         [] OTHER -> FALSE
Why == CASE E.op = "call" ->
              IF E.m \notin DOMAIN maps THEN "call of unknown mapping"
              ELSE IF maps[E.m].ph = "want" THEN "data state shared with a running mapping"
              ELSE IF maps[E.m].ph = "run" /\ maps[E.m].st # E.s THEN "data state changed"
              ELSE IF maps[E.m].k >= K THEN "too many calls"
              ELSE IF E.c # maps[E.m].k THEN "carry" ELSE "observations or mask"
         [] E.op = "fin" -> "unfinished mappings or more data states than running mappings"
         [] OTHER -> E.op
TInit == t \in 1 .. NTraces /\ l = 1
         /\ Init0(TraceCfg(t), 0) 
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED t
        ELSE IF ENABLED Silent THEN Silent /\ UNCHANGED <<t, l>>
        ELSE Reject(t, l, Why) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<vars, t>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<vars, t>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
