------------------------------ MODULE BatchAccess ------------------------------
(***************************************************************************)
(* Access to host data from jit-compiled functions: cache states, refresh  *)
(* of the cache by host callbacks, and the token protocol which detects    *)
(* outdated and replicated states (properties C04 and C05).                *)
(*                                                                         *)
(* The loader serves the batches 0, 1, 2, ... of every chain, "cache" many *)
(* per request. A data state is an immutable value held by the user, who   *)
(* may use each one any number of times, in any order.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES chains,  \* chain -> [cache, strict]
          fetched, \* chain -> number of batches the loader has been asked for
          cur,     \* chain -> token of the most recent response, 0 if none
          kept,    \* token -> response kept for the other replicas
          states,  \* id -> data state
          ntok     \* tokens issued so far
vars == <<chains, fetched, cur, kept, states, ntok>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == /\ chains = Empty /\ fetched = Empty /\ cur = Empty /\ kept = Empty
        /\ states = Empty /\ ntok = 0

(* A new chain: the first request is made eagerly.                         *)
Open(ch, s, cache, strict) ==
  /\ ch \notin DOMAIN chains /\ s \notin DOMAIN states
  /\ chains' = Put(chains, ch, [cache |-> cache, strict |-> strict])
  /\ fetched' = Put(fetched, ch, cache)
  /\ cur' = Put(cur, ch, 0)
  /\ ntok' = ntok + 1
  /\ states' = Put(states, s, [ch |-> ch, base |-> 0, line |-> 0,
                               tok |-> ntok + 1])
  /\ UNCHANGED kept

(* What happens if the next batch is requested from state v?               *)
Outcome(v) ==
  IF v.line < chains[v.ch].cache THEN "hit"
  ELSE IF v.tok \in DOMAIN kept THEN "replica"
  ELSE IF cur[v.ch] \in {0, v.tok} THEN "fetch"
  ELSE "stale"

Fetches(v) == \/ Outcome(v) = "fetch"
              \/ Outcome(v) = "stale" /\ ~chains[v.ch].strict
(* Number of the batch delivered from state v                              *)
Delivers(v) == IF Outcome(v) = "hit" THEN v.base + v.line
               ELSE IF Outcome(v) = "replica" THEN kept[v.tok].base
               ELSE fetched[v.ch]
Line1(v, base, tok) == [v EXCEPT !.base = base, !.line = 1, !.tok = tok]

Hit(s, r) ==
  LET v == states[s] IN
  /\ Outcome(v) = "hit"
  /\ states' = Put(states, r, [v EXCEPT !.line = @ + 1])
  /\ UNCHANGED <<chains, fetched, cur, kept, ntok>>

Fetch(s, r, dev) ==
  LET v == states[s] IN
  /\ Fetches(v)
  /\ ntok' = ntok + 1
  /\ fetched' = [fetched EXCEPT ![v.ch] = @ + chains[v.ch].cache]
  /\ cur' = [cur EXCEPT ![v.ch] = ntok + 1]
  /\ kept' = IF dev = 1 THEN kept
             ELSE Put(kept, v.tok, [base |-> fetched[v.ch], tok |-> ntok + 1,
                                    left |-> dev - 1])
  /\ states' = Put(states, r, Line1(v, fetched[v.ch], ntok + 1))
  /\ UNCHANGED chains

Replica(s, r) ==
  LET v == states[s] k == kept[v.tok] IN
  /\ Outcome(v) = "replica"
  /\ kept' = IF k.left = 1 THEN Drop(kept, v.tok)
             ELSE [kept EXCEPT ![v.tok].left = @ - 1]
  /\ states' = Put(states, r, Line1(v, k.base, k.tok))
  /\ UNCHANGED <<chains, fetched, cur, ntok>>

Access(s, r, dev) ==
  /\ s \in DOMAIN states /\ r \notin DOMAIN states
  /\ \/ Hit(s, r) \/ Fetch(s, r, dev) \/ Replica(s, r)

(* The access is refused and has no effect at all. (steps: the state is to  *)
(* be advanced by that many batches in one call, e.g. by a full sweep)      *)
Refused(s, steps) ==
  LET v == states[s] c == chains[v.ch] IN
  /\ c.strict
  /\ v.line + steps > c.cache
  /\ Outcome([v EXCEPT !.line = c.cache]) = "stale"
  /\ UNCHANGED vars

DeviceCountOK(k, available, raised) == (raised = 1) <=> k > available
===============================================================================
