----------------------------- MODULE ProgressTrace -----------------------------
(* Lines printed by real runs. The lines of different reporters are             *)
(* interleaved; s is the set of all numbers of lines printed by each reporter   *)
(* which explain the lines so far.                                              *)
EXTENDS Progress, TraceLib
VARIABLES t, l, s
tvars == <<t, l, s>>
E == TraceEv(t)[l]
P == TraceCfg(t)
Rs == DOMAIN P.rep
Next1(v) == {[v EXCEPT ![c] = @ + 1] : c \in {c \in Rs : IsReport(P.rep[c], v[c] + 1, E)}}
After == UNION {Next1(v) : v \in s}
Why == CASE E.op = "report" -> IF After = {} THEN "no such report is due" ELSE ""
         [] E.op = "done" -> IF \E v \in s : \A c \in Rs : v[c] = Reports(P.rep[c]) THEN ""
                             ELSE "reports are missing"
         [] E.op = "results" -> IF E.bar = E.nobar THEN "" ELSE "the bar changes the results"
         [] OTHER -> E.op
TInit == t \in 1 .. NTraces /\ l = 1 /\ s = {[c \in DOMAIN TraceCfg(t).rep |-> 0]}
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = "" THEN /\ l' = l + 1 /\ UNCHANGED t
                       /\ s' = IF E.op = "report" THEN After ELSE s
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, s>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
