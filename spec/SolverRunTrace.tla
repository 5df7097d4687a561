----------------------------- MODULE SolverRunTrace ----------------------------
(* Recorded runs as behaviours of SolverRun. Iterations are silent; storing   *)
(* and finalizing are silent for collectors which do not report them.         *)
EXTENDS SolverRun, TraceLib
VARIABLES t, l
tvars == <<vars, t, l>>
E == TraceEv(t)[l]
C == E.c
Known == Has(E, "c") /\ C \in Chains
Reports == cfg.reports = 1
(* The silent steps of this chain which have to precede the event             *)
Silent ==
  IF ~Known THEN FALSE
  ELSE IF E.op = "store" THEN ~CanStore(C) /\ Iterate(C)
  ELSE IF E.op \in {"finalize", "return"} THEN
       IF CanIterate(C) THEN Iterate(C)
       ELSE IF Reports THEN FALSE
       ELSE IF CanStore(C) THEN Store(C, ch[C].kept[ch[C].stored + 1])
       ELSE E.op = "return" /\ Finalize(C)
  ELSE FALSE
(* A run whose burn-in and thinning cannot be satisfied is not recorded;      *)
(* several runs with the same collector: the chains of the next run follow.   *)
Act == CASE E.op = "store" -> Known /\ Store(C, E.v)
         [] E.op = "finalize" -> Known /\ Finalize(C)
         [] E.op = "return" -> Known /\ Return(C, E.count, E.samples)
         [] E.op = "fin" -> (\A c \in Chains : ch[c].ph = "done") /\ UNCHANGED vars
         [] OTHER -> FALSE
Why == CASE E.op = "return" ->
              IF ~Known THEN "unknown chain"
              ELSE IF ~Complete(C) THEN "returned before all samples were stored"
              ELSE IF ch[C].fin = 0 THEN "returned before finalization"
              ELSE IF E.count # Len(ch[C].kept) THEN "sample count" ELSE "returned samples"
         [] E.op = "store" -> IF ~Known THEN "unknown chain"
              ELSE IF ch[C].fin = 1 THEN "sample after finalization"
              ELSE IF CanStore(C) THEN "stored sample" ELSE "more samples than accepted"
         [] OTHER -> E.op
TInit == t \in 1 .. NTraces /\ l = 1 /\ Init0(TraceCfg(t))
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED t
        ELSE IF ENABLED Silent THEN Silent /\ UNCHANGED <<t, l>>
        ELSE Reject(t, l, Why) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<vars, t>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<vars, t>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
