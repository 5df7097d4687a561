----------------------------- MODULE FullMapTrace -----------------------------
(* Recorded sweeps over real datasets as behaviours of FullMap.               *)
EXTENDS FullMap, TraceLib
VARIABLES t, l
tvars == <<vars, t, l>>
E == TraceEv(t)[l]

(* The mask given to the function (masking) and the mask of the batch        *)
(* information both mark exactly the valid entries; if none is given, the    *)
(* fillers can not be identified by the function.                            *)
B == NextBatch(lanes[run.lane])
TrueMask == [i \in 1 .. cfg.mb |-> IF i <= B.v THEN 1 ELSE 0]
MaskOf == IF E.masking = 1 THEN E.m ELSE TrueMask
InfoOK == IF E.info = 1 THEN E.im = TrueMask /\ E.n = N /\ E.mb = cfg.mb ELSE TRUE
Act == CASE E.op = "lane" -> NewLane(E.a, E.host = 1, E.off)
         [] E.op = "begin" -> Begin(E.a)
         [] E.op = "call" -> InfoOK /\ E.y = E.x /\ Call(E.x, MaskOf, E.c)
         [] E.op = "end" -> End(IF E.masking = 1 THEN run.valid ELSE E.res, E.c)
         [] OTHER -> FALSE
Why == CASE E.op = "call" ->
              IF run = Idle \/ run.call >= K THEN "too many calls"
              ELSE IF ~InfoOK THEN "batch information"
              ELSE IF E.c # run.call THEN "carry"
              ELSE IF MaskOf # TrueMask THEN "mask"
              ELSE "observations of the batch"
         [] E.op = "end" -> IF run.call # K THEN "number of calls"
                            ELSE IF E.c # K THEN "carry" ELSE "results"
         [] OTHER -> E.op
TInit == t \in 1 .. NTraces /\ l = 1 /\ Init0(TraceCfg(t))
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED t
        ELSE Reject(t, l, Why) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<vars, t>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<vars, t>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
