---------------------------- MODULE DataLoaderTrace ----------------------------
(* Recorded executions of the real data loaders as behaviours of DataLoader. *)
EXTENDS DataLoader, TraceLib
VARIABLES t, l, cnt
tvars == <<vars, t, l, cnt>>

E == TraceEv(t)[l]

(* All fields of a row are kept together: every field of entry i of batch b  *)
(* identifies the same observation.                                          *)
Together(b) == \A f \in DOMAIN b.f : b.f[f] = b.x
Strip(b) == [x |-> b.x, m |-> b.m]
StripAll(bs) == [i \in DOMAIN bs |-> Strip(bs[i])]

(* Long-run statistics of one chain: counts of the observations and number   *)
(* of repeated neighbours in "total" independent uniform draws, within six   *)
(* standard deviations.                                                      *)
Within6(c, total, p1, p2) ==    \* c ~ Binomial(total, p1/p2)
  LET d == Abs(c * p2 - total * p1) IN
  d < 30000 /\ d * d <= 36 * total * p1 * (p2 - p1)
UniformOK(e) ==
  /\ SumSeq(e.counts) = e.total
  /\ Len(e.counts) = n
  /\ \A i \in DOMAIN e.counts : Within6(e.counts[i], e.total, 1, n)
  /\ Within6(e.pairs, e.total - 1, 1, n)
(* The order of the observations is random: not all permutations are equal.  *)
MixedOK(e) == Cardinality(SeqToSet(e.perms)) >= 2

(* tensorflow: a shuffle buffer of size buf over the repeated dataset, the   *)
(* j-th returned observation is one of the first j - 1 + buf of the inputs.  *)
BufferOK(e) ==
  \A i \in 0 .. n - 1 :
    e.counts[i + 1] <= (IF e.total + e.buf - 1 - i <= 0 THEN 0
                        ELSE CeilDiv(e.total + e.buf - 1 - i, n))

(* Summary of n consecutive valid observations of a large dataset               *)
WindowOK(e) ==
  /\ e.valid = n
  /\ IF e.kind = "draw" THEN e.lo >= 0 /\ e.hi < n /\ e.hi > n - (n \div 10) /\ e.lo < n \div 10
     ELSE e.distinct = n /\ e.lo = 0 /\ e.hi = n - 1 /\ (e.kind = "ordered" => e.inorder = 1)

(* Many independent uniform draws from a larger dataset: about "total / n" of  *)
(* each observation, a quarter of them from each quarter of the dataset.        *)
CoverageOK(e) ==
  /\ e.inside = e.total
  /\ e.lo * n * 8 >= e.total /\ e.hi * n <= 3 * e.total
  /\ Len(e.quarters) = 4
  /\ n % 4 = 0 => \A i \in 1 .. 4 : Within6(e.quarters[i], e.total, 1, 4)

(* Independent chains draw different observations.                              *)
StreamsOK(e) == e.distinct = e.chains

Act == CASE E.op = "reg" -> Register(E.h, E.id, E.kind, E.mb, E.cache, E.seed)
         [] E.op = "get" -> /\ \A i \in DOMAIN E.bs : Together(E.bs[i])
                            /\ GetBatches(E.h, StripAll(E.bs))
         [] E.op = "save" -> SaveState(E.h, E.k)
         [] E.op = "load" -> LoadState(E.h, E.k)
         [] E.op = "request" -> Request(E, E.raised) /\ UNCHANGED vars
         [] E.op = "uniform" -> UniformOK(E) /\ UNCHANGED vars
         [] E.op = "mixed" -> MixedOK(E) /\ UNCHANGED vars
         [] E.op = "buffer" -> BufferOK(E) /\ UNCHANGED vars
         [] E.op = "window" -> WindowOK(E) /\ UNCHANGED vars
         [] E.op = "coverage" -> CoverageOK(E) /\ UNCHANGED vars
         [] E.op = "streams" -> StreamsOK(E) /\ UNCHANGED vars
         [] E.op = "static" -> E.n = n /\ UNCHANGED vars
         [] OTHER -> FALSE

Why == CASE E.op \in {"exception", "hang", "crash"} -> E.op
         [] E.op = "get" ->
              IF Len(E.bs) # chains[E.h].key.cache THEN "number of batches"
              ELSE IF \E i \in DOMAIN E.bs : ~Together(E.bs[i])
                   THEN "fields of a row not together"
              ELSE IF ~BatchesOK(chains[E.h].key, chains[E.h].st, StripAll(E.bs))
                   THEN "sampling scheme " \o chains[E.h].key.kind
              ELSE "batches differ from the stream of the chain"
         [] OTHER -> "event " \o E.op

TInit == /\ t \in 1 .. NTraces /\ l = 1 /\ cnt = 0
         /\ Init0(TraceCfg(t).n)
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED <<t, cnt>>
        ELSE /\ Reject(t, l, Why)
             /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<vars, t, cnt>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<vars, t, cnt>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
