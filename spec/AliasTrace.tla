------------------------------- MODULE AliasTrace -------------------------------
(* Recorded runs of the predefined samplers.                                   *)
(*  ref: samples of the composition of Components(a), chain by chain           *)
(*  run: samples of the predefined sampler, w = what was changed against a:    *)
(*       "" (nothing), or saving, progress bar and cache size, or repetition   *)
EXTENDS Alias, FixedPoint, TraceLib
VARIABLES t, l, s
tvars == <<t, l, s>>
E == TraceEv(t)[l]
P == TraceCfg(t)
A == P.a
Same(r, q) == CloseSeq(r, q, 1000, 300)
MstWhy(m) ==
  LET ev == Evals(A)
      m0 == P.m0 + Before(A)
      n == Len(m)
      all == Count(A) = A.its - A.burn
      bad(i) == (m[i] - m0) % ev # 0 \/ m[i] < m0 \/ m[i] > m0 + A.its * ev
  IN IF A.mst = 0 THEN ""
     ELSE IF \E i \in 1 .. n : bad(i) THEN "integration steps"
     ELSE IF A.name \in MH
          THEN IF \E i \in 2 .. n : m[i] < m[i - 1] THEN "model state"
               ELSE IF all /\ \E i \in 2 .. n : m[i] - m[i - 1] \notin {0, ev} THEN "model state" ELSE ""
     ELSE IF \E i \in 2 .. n : m[i] <= m[i - 1] THEN "model state"
     ELSE IF n > 0 /\ m[1] <= m0 + A.burn * ev THEN "sample of the burn-in"
     ELSE IF all /\ \E i \in 1 .. n : m[i] # m0 + (A.burn + i) * ev THEN "model state" ELSE ""
HWhy(h) ==
  IF A.name \notin MH \/ Len(h) = 0 THEN ""
  ELSE IF A.ad = 1 THEN (IF \E i \in DOMAIN h : h[i] # h[1] THEN "step size after burn-in" ELSE "")
  ELSE IF \E i \in DOMAIN h : h[i] > A.h0 * 256 + 2 \/ h[i] < A.h1 * 256 - 2 THEN "range of step sizes"
  ELSE IF A.burn = 0 /\ Count(A) = A.its /\ ~Close(h[1], A.h0 * 256, 5000, 2) THEN "first step size"
  ELSE IF Count(A) = A.its - A.burn /\ ~Close(h[Len(h)], A.h1 * 256, 5000, 2) THEN "last step size" ELSE ""
ChainWhy(r, q) ==
  IF r.n # Count(A) \/ Len(r.m) # (IF A.mst = 0 THEN 0 ELSE Count(A)) THEN "number of samples"
  ELSE IF r.len # Count(A) THEN "length of the samples"
  ELSE IF MstWhy(r.m) # "" THEN MstWhy(r.m)
  ELSE IF HWhy(r.h) # "" THEN HWhy(r.h)
  ELSE IF ~Same(r.d, q.d) THEN "samples differ from the requested composition"
  ELSE ""
RunWhy ==
  IF Len(E.res) # A.chains THEN "number of chains"
  ELSE LET bad == {i \in 1 .. A.chains : ChainWhy(E.res[i], s[i]) # ""}
       IN IF bad = {} THEN "" ELSE ChainWhy(E.res[CHOOSE i \in bad : \A j \in bad : i <= j],
                                            s[CHOOSE i \in bad : \A j \in bad : i <= j])
(* Registrations with the data loader                                          *)
RegWhy == IF \E i \in DOMAIN E.reg : E.reg[i][1] # E.cs \/ E.reg[i][2] # A.bs
          THEN "batch or cache size"
          ELSE IF Len(E.reg) = 0 THEN "no data used" ELSE ""
Why == CASE E.op = "ref" -> IF P.c = Components(A) THEN "" ELSE "components"
         [] E.op = "run" -> IF RunWhy # "" THEN RunWhy \o " " \o E.w ELSE ""
         [] E.op = "reg" -> RegWhy
         [] OTHER -> E.op
TInit == t \in 1 .. NTraces /\ l = 1 /\ s = <<>>
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = ""
        THEN /\ l' = l + 1 /\ UNCHANGED t /\ s' = IF E.op = "ref" THEN E.res ELSE s
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, s>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
