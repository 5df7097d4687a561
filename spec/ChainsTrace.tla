------------------------------- MODULE ChainsTrace -------------------------------
(* Recorded runs, list maps and identifiers.                                   *)
(*  alone: history d (fixed point) and digest of the chain c, run alone        *)
(*  run:   histories and digests of the chains in the order given; exact = 1   *)
(*         if the computation is the same as alone                             *)
EXTENDS Chains, FixedPoint, TraceLib
VARIABLES t, l, s
tvars == <<t, l, s>>
E == TraceEv(t)[l]
P == TraceCfg(t)
Ok(c, r) == /\ Len(r.d) = Len(s[c].d) /\ r.n = s[c].n
            /\ IF E.exact = 1 THEN r.hash = s[c].hash ELSE CloseSeq(r.d, s[c].d, 2000, 200)
ListWhy ==
  LET want == CASE E.fn = "stack" -> <<Stack(E.in)>>
                [] E.fn = "unstack" -> Unstack(E.in[1])
                [] OTHER -> Map(E.fn, E.in)
  IN IF E.out # want THEN "lists of trees" ELSE IF E.same # 1 THEN "structure or types" ELSE ""
UuidWhy ==
  IF \E k \in DOMAIN E.words : E.words[k] # E.words[1] THEN "identifier changed"
  ELSE IF E.text # Written(E.words[1]) THEN "text of the identifier"
  ELSE IF E.fresh = 1 /\ E.words[1] \in s THEN "identifier is not unique" ELSE ""
Why ==
  CASE E.op = "alone" -> ""
    [] E.op = "run" ->
         IF Len(E.res) # Len(E.order) THEN "number of results"
         ELSE IF \E i \in DOMAIN E.order : E.order[i] > 0 /\ ~Ok(E.order[i], E.res[i])
         THEN "chain differs from the chain alone" ELSE ""
    [] E.op = "list" -> ListWhy
    [] E.op = "uuid" -> UuidWhy
    [] OTHER -> E.op
TInit == /\ t \in 1 .. NTraces /\ l = 1
         /\ s = IF TraceCfg(t).mode = "uuid" THEN {} ELSE <<>>
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = ""
        THEN /\ l' = l + 1 /\ UNCHANGED t
             /\ s' = CASE E.op = "alone" -> Append(s, [d |-> E.d, hash |-> E.hash, n |-> E.n])
                       [] E.op = "uuid" -> s \cup {E.words[1]}
                       [] OTHER -> s
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, s>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
