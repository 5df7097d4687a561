---------------------------- MODULE BatchAccessTrace ----------------------------
(* Recorded accesses to the real data chains as behaviours of BatchAccess.    *)
(* The recorded loader logs what it returns ("serve").                        *)
EXTENDS BatchAccess, TraceLib
VARIABLES t, l,
          served,  \* chain -> batches returned by the loader so far
          asked    \* number of requests received by the loader
tvars == <<vars, t, l, served, asked>>
E == TraceEv(t)[l]
N == TraceCfg(t).n

TOpen == /\ Open(E.ch, E.s, E.cache, E.strict = 1)
         /\ E.ch \in DOMAIN served /\ Len(served[E.ch]) = E.cache
         /\ UNCHANGED <<served, asked>>
TServe == /\ served' = Put(served, E.ch,
               (IF E.ch \in DOMAIN served THEN served[E.ch] ELSE <<>>) \o E.bs)
          /\ asked' = asked + 1
          /\ UNCHANGED vars
Expect(v) == LET i == Delivers(v) + 1 IN
  IF i <= Len(served[v.ch]) THEN served[v.ch][i] ELSE [x |-> <<-7>>, m |-> <<-7>>]
(* The delivered batch and its mask are those of the loader; the information  *)
(* is correct. Events without mask (information not requested) have m = <<>>  *)
Same(e, b) == e.x = b.x /\ (IF e.noinfo = 1 THEN TRUE ELSE e.m = b.m)
InfoOK(e) == IF e.noinfo = 1 THEN TRUE ELSE e.n = N /\ e.mb = Len(e.x)
TAcc == /\ Access(E.s, E.r, E.dev)
        /\ Same(E, Expect(states[E.s])) /\ InfoOK(E)
        /\ UNCHANGED <<served, asked>>
TRefused == Refused(E.s, E.steps) /\ UNCHANGED <<served, asked>>
(* After every call of the user: the loader has been asked exactly as often   *)
(* as necessary.                                                              *)
TSync == /\ \A ch \in DOMAIN chains :
              ch \in DOMAIN served /\ Len(served[ch]) = fetched[ch]
         /\ UNCHANGED <<vars, served, asked>>
Act == CASE E.op = "open" -> TOpen
         [] E.op = "serve" -> TServe
         [] E.op = "acc" -> TAcc
         [] E.op = "refused" -> TRefused
         [] E.op = "sync" -> TSync
         [] E.op = "devcount" -> DeviceCountOK(E.k, E.available, E.raised)
                                 /\ UNCHANGED <<vars, served, asked>>
         [] OTHER -> FALSE
Why == CASE E.op = "acc" ->
              IF Outcome(states[E.s]) = "stale" /\ chains[states[E.s].ch].strict
                THEN "outdated state accepted"
              ELSE IF E.x # Expect(states[E.s]).x THEN "wrong batch"
              ELSE IF ~InfoOK(E) THEN "wrong information" ELSE "wrong mask"
         [] E.op = "sync" -> "loader asked too often or too early"
         [] E.op = "refused" -> "access refused"
         [] OTHER -> E.op
TInit == /\ t \in 1 .. NTraces /\ l = 1
         /\ Init /\ served = Empty /\ asked = 0
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED t
        ELSE /\ Reject(t, l, Why)
             /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<vars, t, served, asked>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<vars, t, served, asked>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
