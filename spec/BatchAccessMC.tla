----------------------------- MODULE BatchAccessMC -----------------------------
(* Exhaustive instances: every schedule of accesses from all kept states.    *)
(* History variables record what every state has been given.                 *)
EXTENDS BatchAccess, TLC
CONSTANTS Chains, Caches, Stricts, Devs, MaxStates
VARIABLES path,   \* state -> batches delivered on the way to it
          used    \* chain -> set of [tok, base] of all refreshes: bag as seq
mvars == <<vars, path, used>>

MInit == Init /\ path = Empty /\ used = <<>>
New == Cardinality(DOMAIN states)
MOpen == \E ch \in Chains, c \in Caches, st \in Stricts :
           /\ \A d \in Chains : d < ch => d \in DOMAIN chains
           /\ Open(ch, New, c, st)
           /\ path' = Put(path, New, <<>>) /\ UNCHANGED used
MAccess == \E s \in DOMAIN states, dev \in Devs :
  /\ New < MaxStates
  /\ Access(s, New, dev)
  /\ path' = Put(path, New, Append(path[s], Delivers(states[s])))
  /\ used' = IF Outcome(states[s]) = "hit" THEN used
             ELSE Append(used, [ch |-> states[s].ch, from |-> states[s].tok,
                                base |-> Delivers(states[s]),
                                how |-> Outcome(states[s]), dev |-> dev])
MRefused == \E s \in DOMAIN states : Refused(s, 1) /\ UNCHANGED <<path, used>>
MNext == MOpen \/ MAccess \/ MRefused
MSpec == MInit /\ [][MNext]_mvars

Idx == DOMAIN used
(* C05: a strict chain never delivers the same data from two requests, other *)
(* than to replicas of one and the same state; a state is refreshed at most  *)
(* as often as announced.                                                    *)
StrictOnce == \A i, j \in Idx :
  i < j /\ used[i].ch = used[j].ch /\ chains[used[i].ch].strict =>
    /\ used[i].base = used[j].base <=> used[i].from = used[j].from
Replicas == \A i \in Idx : used[i].how # "replica" =>
    Cardinality({j \in Idx : used[j].from = used[i].from /\ used[j].base = used[i].base})
      <= used[i].dev
(* C05: without verification nothing is delivered twice                      *)
LaxOnce == \A i, j \in Idx :
  i < j /\ used[i].ch = used[j].ch /\ used[i].base = used[j].base =>
    used[i].from = used[j].from /\ used[j].how = "replica"
(* C04: a strict chain delivers 0, 1, 2, ... along every path, a chain       *)
(* without verification an increasing sequence                               *)
Consecutive == \A s \in DOMAIN states :
  LET p == path[s] IN
  IF chains[states[s].ch].strict THEN \A i \in DOMAIN p : p[i] = i - 1
  ELSE \A i, j \in DOMAIN p : i < j => p[i] < p[j]
(* C04: the loader is asked only if all cached batches have been used        *)
Lazy == \A ch \in DOMAIN chains :
  fetched[ch] = chains[ch].cache * (1 + Cardinality(
    {i \in Idx : used[i].ch = ch /\ used[i].how # "replica"}))
(* Responses are kept only as long as replicas may ask for them              *)
KeptInv == \A k \in DOMAIN kept : kept[k].left >= 1
===============================================================================
