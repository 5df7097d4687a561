------------------------------- MODULE Handshake -------------------------------
(***************************************************************************)
(* How the samples of a run reach the data collector (jax_sgmc.io.save):    *)
(* the device executes the iterations and appends callbacks to a queue,     *)
(* a callback thread calls the collector (which may be slow, so calls have  *)
(* a begin and an end), and the main thread schedules the finalization as a *)
(* further callback, waits in finished() for the event set at the end of    *)
(* finalize() and hands out the results.                                    *)
(* Checked to refine SolverRun. WaitFor selects (broken) variants of the    *)
(* signal given to the main thread.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NC, MaxT, WaitFor
VARIABLES cfg, dev, queue, cb, disk, ev, main
vars == <<cfg, dev, queue, cb, disk, ev, main>>

(* dev: iterations executed for the current chain; cb: call in progress     *)
(* disk[c]: samples stored; ev[c]: event of chain c; main: <<phase, chain>> *)
Chains == 1 .. NC
Acc(c) == {i \in 1 .. cfg.n : cfg.keep[c][i] = 1}
HInit == /\ \E n \in 0 .. MaxT : \E keep \in [1 .. NC -> [1 .. n -> 0 .. 1]] :
              cfg = [n |-> n, keep |-> keep, a0 |-> <<3>>, tau |-> <<1>>, stats |-> 1,
                     chains |-> [c \in 1 .. NC |-> 10 * c]]
         /\ dev = [c \in Chains |-> 0] /\ queue = <<>> /\ cb = <<"none">>
         /\ disk = [c \in Chains |-> 0] /\ ev = [c \in Chains |-> "reset"]
         /\ main = <<"start", 1>>
Cur == main[2]
Dispatch == /\ main[1] = "start" /\ main' = <<"tap", Cur>>
            /\ UNCHANGED <<cfg, dev, queue, cb, disk, ev>>
(* the device is at most one chain ahead (strategy map)                     *)
Exec(c) == /\ (c < Cur \/ (c = Cur /\ main[1] # "start")) /\ dev[c] < cfg.n
           /\ \A d \in 1 .. c - 1 : dev[d] = cfg.n
           /\ dev' = [dev EXCEPT ![c] = dev[c] + 1]
           /\ queue' = (IF cfg.keep[c][dev[c] + 1] = 1
                        THEN Append(queue, <<"save", c>>) ELSE queue)
           /\ UNCHANGED <<cfg, cb, disk, ev, main>>
(* the chain id used by the callback is a result of the run                 *)
Tap == /\ main[1] = "tap" /\ (dev[Cur] = cfg.n \/ WaitFor = "nodep")
       /\ queue' = Append(queue, <<"finalize", Cur>>)
       /\ main' = <<"wait", Cur>>
       /\ UNCHANGED <<cfg, dev, cb, disk, ev>>
CbBegin == /\ cb[1] = "none" /\ queue # <<>>
           /\ cb' = Head(queue) /\ queue' = Tail(queue)
           /\ ev' = (IF Head(queue)[1] = "finalize" /\ WaitFor = "early"
                     THEN [ev EXCEPT ![Head(queue)[2]] = "set"] ELSE ev)
           /\ UNCHANGED <<cfg, dev, disk, main>>
CbEnd == /\ cb[1] # "none"
         /\ (IF cb[1] = "save"
             THEN disk' = [disk EXCEPT ![cb[2]] = disk[cb[2]] + 1] /\ UNCHANGED ev
             ELSE ev' = [ev EXCEPT ![cb[2]] = "set"] /\ UNCHANGED disk)
         /\ cb' = <<"none">> /\ UNCHANGED <<cfg, dev, queue, main>>
Finished == /\ main[1] = "wait"
            /\ (ev[Cur] = "set" \/ WaitFor = "nothing"
                \/ (WaitFor = "any" /\ \E c \in Chains : ev[c] = "set"))
            /\ main' = (IF Cur = NC THEN <<"done", NC + 1>> ELSE <<"start", Cur + 1>>)
            /\ UNCHANGED <<cfg, dev, queue, cb, disk, ev>>
HNext == Dispatch \/ (\E c \in Chains : Exec(c)) \/ Tap \/ CbBegin \/ CbEnd \/ Finished
HSpec == HInit /\ [][HNext]_vars /\ WF_vars(HNext)

Returned(c) == c < Cur
CompleteAtReturn == \A c \in Chains : Returned(c) => disk[c] = Cardinality(Acc(c))
FileComplete == \A c \in Chains : Returned(c) => ev[c] = "set" /\ cb # <<"finalize", c>>
Returns == <>(main[1] = "done")

(* Refinement: the abstract chain                                           *)
RECURSIVE AbsRun(_, _, _, _, _)
SR == INSTANCE SolverRun WITH ch <- [c \in Chains |-> [ph |-> "x"]]
AbsRun(c, k, h, a, kept) ==
  IF k = dev[c]
  THEN [ph |-> IF Returned(c) THEN "done" ELSE "run", k |-> k, n |-> k, h |-> h, a |-> a,
        kept |-> kept, stored |-> disk[c], fin |-> IF ev[c] = "set" THEN 1 ELSE 0]
  ELSE LET g == SR!NextH(h, a)
       IN AbsRun(c, k + 1, g, SR!NextA(a, g, k),
                 IF cfg.keep[c][k + 1] = 1 THEN Append(kept, <<k + 1, g>>) ELSE kept)
A == INSTANCE SolverRun WITH
       ch <- [c \in Chains |-> AbsRun(c, 0, cfg.chains[c], cfg.a0, <<>>)]
AbstractNext == \E c \in Chains :
  \/ A!Iterate(c) \/ A!Finalize(c)
  \/ \E v \in {A!Result(c)[i] : i \in 1 .. Len(A!Result(c))} : A!Store(c, v)
  \/ A!Return(c, Cardinality(Acc(c)), A!Result(c))
Refines == [][AbstractNext \/ UNCHANGED A!vars]_vars
===============================================================================
