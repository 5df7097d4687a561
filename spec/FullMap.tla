------------------------------- MODULE FullMap -------------------------------
(***************************************************************************)
(* Mapping a function over a complete dataset (property C01).              *)
(*                                                                         *)
(* The sweep requests ceil(n/mb) batches. Host data: the batches come from *)
(* a cache, which is filled by an ordered chain of the data loader, whose  *)
(* position is independent of the sweeps. Device data: the batches are     *)
(* sliced from the dataset starting at an offset. Several data states      *)
(* ("lanes") may be in use, a function is mapped with one of them.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg,     \* [n, mb, cache]
          lanes,   \* lane -> [host, off, loff, lines, line]
          run      \* the running sweep: [lane, call, valid] or "idle"
vars == <<cfg, lanes, run>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Min(a, b) == IF a < b THEN a ELSE b
N == cfg.n
K == (N + cfg.mb - 1) \div cfg.mb
Idle == [lane |-> -1, call |-> 0, valid |-> <<>>]

Init0(c) == cfg = c /\ lanes = Empty /\ run = Idle

(* A batch is given by its first observation s (counted from the offset of *)
(* the lane) and the number of valid entries.                              *)
Batch(s) == [s |-> s, v |-> Min(cfg.mb, N - s)]
Next0(s) == IF s + cfg.mb >= N THEN 0 ELSE s + cfg.mb

RECURSIVE Chunk(_, _)    \* the next c batches of the ordered chain
Chunk(s, c) == IF c = 0 THEN <<>> ELSE <<Batch(s)>> \o Chunk(Next0(s), c - 1)
RECURSIVE Skip(_, _)
Skip(s, c) == IF c = 0 THEN s ELSE Skip(Next0(s), c - 1)

(* Host lanes start with a full cache; off # 0 only for device data        *)
NewLane(a, host, off) ==
  /\ a \notin DOMAIN lanes /\ off < N /\ (host => off = 0)
  /\ lanes' = Put(lanes, a,
       IF host THEN [host |-> TRUE, off |-> 0, loff |-> Skip(0, cfg.cache),
                     lines |-> Chunk(0, cfg.cache), line |-> 0]
       ELSE [host |-> FALSE, off |-> off, loff |-> 0, lines |-> <<>>, line |-> 0])
  /\ UNCHANGED <<cfg, run>>

Begin(a) == /\ run = Idle /\ a \in DOMAIN lanes
            /\ run' = [Idle EXCEPT !.lane = a]
            /\ UNCHANGED <<cfg, lanes>>

(* The lane after refreshing its cache if necessary, and its next batch    *)
Refreshed(L) ==
  IF L.host /\ L.line = Len(L.lines)
  THEN [L EXCEPT !.lines = Chunk(L.loff, cfg.cache),
                 !.loff = Skip(L.loff, cfg.cache), !.line = 0]
  ELSE L
NextBatch(L) ==
  LET r == Refreshed(L) IN
  IF L.host THEN r.lines[r.line + 1] ELSE Batch(L.loff)
After(L) == LET r == Refreshed(L) IN
  IF L.host THEN [r EXCEPT !.line = @ + 1] ELSE [L EXCEPT !.loff = Next0(@)]

(* Observation at entry i of the batch that starts at s of lane L           *)
Row(L, s, i) == (L.off + s + i - 1) % N

(* The function is called with rows x (marked as valid by m) and the carry  *)
(* of the previous call, here the number of previous calls.                 *)
Call(x, m, c) ==
  LET L == lanes[run.lane] b == NextBatch(L) IN
  /\ run # Idle /\ run.call < K
  /\ Len(x) = cfg.mb /\ Len(m) = cfg.mb
  /\ \A i \in 1 .. cfg.mb :
       /\ x[i] \in 0 .. N - 1
       /\ m[i] = IF i <= b.v THEN 1 ELSE 0
       /\ i <= b.v => x[i] = Row(L, b.s, i)
  /\ c = run.call
  /\ run' = [run EXCEPT !.call = @ + 1,
                        !.valid = @ \o SubSeq(x, 1, b.v)]
  /\ lanes' = [lanes EXCEPT ![run.lane] = After(L)]
  /\ UNCHANGED cfg

(* Results of the single observations, without fillers, and the last carry  *)
End(res, c) ==
  /\ run # Idle /\ run.call = K
  /\ c = K
  /\ res = run.valid
  /\ run' = Idle
  /\ UNCHANGED <<cfg, lanes>>

(* C01: the valid entries of the calls of a sweep are the observations in   *)
(* dataset order, each once                                                 *)
InOrder == run # Idle =>
  /\ \A i \in DOMAIN run.valid : run.valid[i] = (lanes[run.lane].off + i - 1) % N
  /\ Len(run.valid) = Min(N, run.call * cfg.mb)
Complete == run # Idle /\ run.call = K => Len(run.valid) = N
===============================================================================
