------------------------------ MODULE DataLoader ------------------------------
(***************************************************************************)
(* Host data loaders: chains of mini-batches, their sampling schemes,      *)
(* their independence and their checkpoints (properties C01, C02, C03).    *)
(*                                                                         *)
(* A loader holds n observations 0..n-1. Every registered chain has a key  *)
(* (everything its batches may depend on: scheme, batch size, cache size,  *)
(* seed) and a sampling state. The batches of a key are not determined by  *)
(* the specification, but once a batch of a key has been observed at a     *)
(* position it is remembered in "memo", and every chain which reaches this *)
(* position of this key has to return the same batch.                      *)
(*                                                                         *)
(* A batch is a record [x |-> rows, m |-> validity (0/1)].                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES n,       \* number of observations
          chains,  \* handle -> chain
          memo,    \* key -> sequence of observed batches
          ckpts    \* name -> saved position of a chain
vars == <<n, chains, memo, ckpts>>

Kinds == {"draw", "shuffle", "epoch", "ordered"}
All == 0 .. n - 1
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

(* Sampling state: number of drawn batches, observations not yet returned  *)
(* in the running permutation, next observation of an ordered chain.       *)
Fresh == [pos |-> 0, rem |-> All, off |-> 0]

Key(kind, mb, cache, seed) ==
  [kind |-> kind, mb |-> mb, cache |-> cache,
   seed |-> IF kind = "ordered" THEN 0 ELSE seed]

Empty == [x \in {} |-> 0]
Init0(N) == n = N /\ chains = Empty /\ memo = Empty /\ ckpts = Empty

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Stream(k) == IF k \in DOMAIN memo THEN memo[k] ELSE <<>>

----------------------------------------------------------------------------
(* Sampling schemes: is b a possible next batch, and what is the state     *)
(* after it?                                                               *)

Valid(b) == {i \in DOMAIN b.x : b.m[i] = 1}
ValidRows(b) == {b.x[i] : i \in Valid(b)}
Shape(key, b) == /\ Len(b.x) = key.mb /\ Len(b.m) = key.mb
                 /\ \A i \in DOMAIN b.x : b.x[i] \in All /\ b.m[i] \in {0, 1}

RECURSIVE Perm(_, _)
(* Remaining observations after returning rows xs; {-1} if impossible.     *)
Perm(rem, xs) ==
  IF xs = <<>> THEN rem
  ELSE LET r == IF rem = {} THEN All ELSE rem IN
       IF Head(xs) \notin r THEN {-1} ELSE Perm(r \ {Head(xs)}, Tail(xs))

ShuffleRem(s, b) == Perm(s.rem, b.x)

DrawOK(key, s, b) == Valid(b) = DOMAIN b.x
ShuffleOK(key, s, b) == Valid(b) = DOMAIN b.x /\ ShuffleRem(s, b) # {-1}
EpochOK(key, s, b) ==
  /\ Cardinality(Valid(b)) = Min(key.mb, Cardinality(s.rem))
  /\ Cardinality(ValidRows(b)) = Cardinality(Valid(b))
  /\ ValidRows(b) \subseteq s.rem
OrderedOK(key, s, b) ==
  /\ Valid(b) = 1 .. Min(key.mb, n - s.off)
  /\ \A i \in Valid(b) : b.x[i] = s.off + i - 1

BatchOK(key, s, b) ==
  /\ Shape(key, b)
  /\ CASE key.kind = "draw" -> DrawOK(key, s, b)
       [] key.kind = "shuffle" -> ShuffleOK(key, s, b)
       [] key.kind = "epoch" -> EpochOK(key, s, b)
       [] OTHER -> OrderedOK(key, s, b)

Advance(key, s, b) ==
  [pos |-> s.pos + 1,
   rem |-> CASE key.kind = "shuffle" -> ShuffleRem(s, b)
             [] key.kind = "epoch" ->
                  IF s.rem = ValidRows(b) THEN All ELSE s.rem \ ValidRows(b)
             [] OTHER -> s.rem,
   off |-> IF key.kind # "ordered" THEN 0
           ELSE IF s.off + key.mb >= n THEN 0 ELSE s.off + key.mb]

RECURSIVE BatchesOK(_, _, _)
BatchesOK(key, s, bs) ==
  IF bs = <<>> THEN TRUE
  ELSE IF BatchOK(key, s, Head(bs))
       THEN BatchesOK(key, Advance(key, s, Head(bs)), Tail(bs)) ELSE FALSE
RECURSIVE AdvanceAll(_, _, _)
AdvanceAll(key, s, bs) ==
  IF bs = <<>> THEN s ELSE AdvanceAll(key, Advance(key, s, Head(bs)), Tail(bs))

(* Batches seen before at these positions are returned again.              *)
Reproduces(key, s, bs) ==
  \A i \in DOMAIN bs :
    s.pos + i <= Len(Stream(key)) => Stream(key)[s.pos + i] = bs[i]
Remember(key, s, bs) ==
  LET st == Stream(key)
      fresh == SubSeq(bs, Len(st) - s.pos + 1, Len(bs))
  IN Put(memo, key, st \o fresh)

----------------------------------------------------------------------------
(* Actions                                                                 *)

(* id: number of the chain within its loader, the seed defaults to it      *)
RegisterOK(kind, mb, in_epochs_only) == mb <= n /\ ~in_epochs_only
Register(h, id, kind, mb, cache, seed) ==
  /\ h \notin DOMAIN chains
  /\ mb \in 1 .. n /\ cache >= 1
  /\ chains' = Put(chains, h, [key |-> Key(kind, mb, cache,
                                           IF seed = -1 THEN id ELSE seed),
                               st |-> Fresh])
  /\ UNCHANGED <<n, memo, ckpts>>

(* One call of get_batches returns cache many batches bs.                  *)
GetBatches(h, bs) ==
  LET c == chains[h] IN
  /\ Len(bs) = c.key.cache
  /\ BatchesOK(c.key, c.st, bs)
  /\ Reproduces(c.key, c.st, bs)
  /\ memo' = Remember(c.key, c.st, bs)
  /\ chains' = [chains EXCEPT ![h].st = AdvanceAll(c.key, c.st, bs)]
  /\ UNCHANGED <<n, ckpts>>

SaveState(h, k) ==
  /\ ckpts' = Put(ckpts, k, chains[h])
  /\ UNCHANGED <<n, chains, memo>>

(* The chain h (registered in the same way) continues where the checkpoint *)
(* has been taken.                                                         *)
SameWay(a, b) == a.kind = b.kind /\ a.mb = b.mb /\ a.cache = b.cache
LoadState(h, k) ==
  /\ SameWay(chains[h].key, ckpts[k].key)
  /\ chains' = [chains EXCEPT ![h] = ckpts[k]]
  /\ UNCHANGED <<n, memo, ckpts>>

(* Requests which have to be rejected                                      *)
Illegal(r) ==
  \/ r.mb > r.n
  \/ r.epochs = 1 /\ r.shuffle = 0
  \/ r.api = "random_reference_data" /\ (r.mb <= 0 \/ r.cache <= 0)
  \/ r.api = "random_reference_data" /\ r.host = 0 /\ r.cache # 1
Request(r, raised) == (raised = 1) <=> Illegal(r)

----------------------------------------------------------------------------
(* Properties of the observed streams                                      *)

Rows(st) == [i \in 1 .. Len(st) |-> st[i].x]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* C02: every n consecutive observations of a shuffled chain, starting     *)
(* with the first, are a permutation.                                      *)
ShuffleInv ==
  \A k \in DOMAIN memo : k.kind = "shuffle" =>
    LET xs == Cat(Rows(memo[k])) IN
    \A p \in 0 .. (Len(xs) \div n) - 1 :
      {xs[p * n + i] : i \in 1 .. n} = All

(* C02: every epoch consists of ceil(n/mb) batches with each observation   *)
(* valid exactly once, and only the last one has invalid entries.          *)
EpochInv ==
  \A k \in DOMAIN memo : k.kind = "epoch" =>
    LET e == CeilDiv(n, k.mb) st == memo[k] IN
    \A p \in 0 .. (Len(st) \div e) - 1 :
      /\ UNION {ValidRows(st[p * e + i]) : i \in 1 .. e} = All
      /\ \A i \in 1 .. e - 1 : Valid(st[p * e + i]) = 1 .. k.mb
      /\ Cardinality(Valid(st[p * e + e])) = n - (e - 1) * k.mb

(* C01: an ordered chain returns every observation once in every sweep.    *)
OrderedInv ==
  \A k \in DOMAIN memo : k.kind = "ordered" =>
    LET e == CeilDiv(n, k.mb) st == memo[k] IN
    \A i \in DOMAIN st :
      LET s == ((i - 1) % e) * k.mb IN
      \A j \in 1 .. k.mb : st[i].m[j] = 1 <=> s + j <= n
(* C03: a chain is always at a position of the stream of its own key.      *)
PosInv == \A h \in DOMAIN chains :
            chains[h].st.pos <= Len(Stream(chains[h].key))
PosAdvance == [][\A h \in DOMAIN chains : h \in DOMAIN chains' =>
  \/ chains'[h].st.pos = chains[h].st.pos
  \/ chains'[h].st.pos = chains[h].st.pos + chains[h].key.cache
  \/ \E k \in DOMAIN ckpts : chains'[h] = ckpts[k]]_vars
(* C03: nothing observed is ever changed, and checkpoints only by saving.  *)
MemoAppend == [][\A k \in DOMAIN memo :
  SubSeq(memo'[k], 1, Len(memo[k])) = memo[k]]_vars
(* Only one chain is affected by a step.                                   *)
Isolation == [][Cardinality({h \in DOMAIN chains : chains'[h] # chains[h]})
                <= 1]_vars
===============================================================================
