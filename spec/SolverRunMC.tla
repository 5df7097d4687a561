------------------------------ MODULE SolverRunMC ------------------------------
EXTENDS SolverRun
CONSTANTS MaxT, NC
MCInit == \E n \in 0 .. MaxT, s \in 0 .. 1 : \E keep \in [1 .. NC -> [1 .. n -> 0 .. 1]], two \in BOOLEAN :
  Init0([keep |-> keep, stats |-> s,
         a0 |-> IF two THEN <<3, 5>> ELSE <<3>>, tau |-> IF two THEN <<1, 2>> ELSE <<1>>,
         chains |-> [c \in 1 .. NC |-> 10 * c]])
Spec(next) == MCInit /\ [][next]_vars
MCNext == \E c \in Chains :
  \/ Iterate(c)
  \/ \E v \in {ch[c].kept[i] : i \in 1 .. Len(ch[c].kept)} : Store(c, v)
  \/ Finalize(c)
  \/ Return(c, Len(ch[c].kept), ch[c].kept)
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
AllReturn == <>(\A c \in Chains : ch[c].ph = "done")
(* one sample is stored at most once, in order *)
Monotone == [][\A c \in Chains : ch'[c].stored \in {ch[c].stored, ch[c].stored + 1}]_vars
===============================================================================
