----------------------------- MODULE BatchAccessGen -----------------------------
(* Schedules of accesses, generated with -simulate from BatchAccess.          *)
EXTENDS BatchAccess, TLC, Json
CONSTANTS NChains, Devs, D, Caches, Stricts
VARIABLES ops, done
gvars == <<vars, ops, done>>
New == Cardinality(DOMAIN states)
Log(e) == ops' = Append(ops, e)
GInit == Init /\ ops = <<>> /\ done = FALSE
GOpen == \E c \in Caches, st \in Stricts :
  LET ch == Cardinality(DOMAIN chains) IN
  /\ ch < NChains /\ Open(ch, New, c, st)
  /\ Log([op |-> "open", ch |-> ch, s |-> New, cache |-> c,
          strict |-> IF st THEN 1 ELSE 0])
Newest(s) == \A r \in DOMAIN states : states[r].ch = states[s].ch => r <= s
GAccess == \E s \in DOMAIN states, dev \in Devs, copy \in 1 .. 12 :
  /\ Newest(s) \/ copy = 1
  /\ Access(s, New, dev)
  /\ Log([op |-> "acc", s |-> s, r |-> New, dev |-> dev])
(* a replica of a state is refreshed too                                      *)
GReplica == \E s \in DOMAIN states, copy \in 1 .. 6 :
  /\ Outcome(states[s]) = "replica" /\ Access(s, New, 2)
  /\ Log([op |-> "acc", s |-> s, r |-> New, dev |-> 2])
GRefused == \E s \in DOMAIN states : Refused(s, 1)
  /\ Log([op |-> "acc", s |-> s, r |-> 0 - 1, dev |-> 1])
GNext == \/ /\ Len(ops) < D
            /\ \/ GOpen \/ GAccess \/ GReplica \/ GRefused
            /\ UNCHANGED done
         \/ /\ Len(ops) = D /\ ~done
            /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
            /\ done' = TRUE /\ UNCHANGED <<vars, ops>>
GSpec == GInit /\ [][GNext]_gvars
===============================================================================
