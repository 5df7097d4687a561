----------------------------- MODULE AdaptionTrace -----------------------------
(* Histories of the real adaption strategies.                                 *)
(* State: v (RMSprop average), xs (samples seen).                             *)
EXTENDS Adaption, TraceLib
VARIABLES t, l, v, xs
tvars == <<t, l, v, xs>>
E == TraceEv(t)[l]
P == TraceCfg(t)
NearM(A, B, rel, eps) == /\ Len(A) = Len(B)
                         /\ \A i \in 1 .. Len(A) : CloseSeq(A[i], B[i], rel, eps)
(* Leaves of half precision hold rounded values                              *)
Rel(n) == IF P.half = 1 THEN 60 ELSE n
NearV(a, b) == CloseSeq(a, b, Rel(2000), 100)
(* Quantities are given as diagonals ("d") or matrices ("m")                 *)
AsMat(q) == IF q.nd = 1 THEN Diag(q.d) ELSE q.m
Id == Diag(OnesV(P.dim))
Tree(q) == q.tree = 1

RmsWhy ==
  LET g == RmsG(v, P.lmbd)
  IN IF ~(Tree(E.g) /\ Tree(E.s) /\ Tree(E.z)) THEN "structure"
     ELSE IF ~NearV(E.g.d, g) THEN "metric"
     ELSE IF ~NearV(E.s.d, [i \in DOMAIN g |-> Sqrt(g[i])]) THEN "square root of the metric"
     ELSE IF \E i \in DOMAIN E.z.d : E.z.d[i] # 0 THEN "correction"
     ELSE IF E.mv # <<>> /\ ~NearV(E.mv, VMul(g, E.vec)) THEN "product" ELSE ""

MassWhy ==
  LET I == InvMass(P.ini, xs, P.burnin, P.diagonal = 1)
      S == AsMat(E.s)
  IN IF ~(Tree(E.g) /\ Tree(E.s)) THEN "structure"
     ELSE IF ~NearM(AsMat(E.g), I, Rel(500), 200) THEN "inverse mass"
     ELSE IF ~NearM(MatMul(MatMul(S, Transpose(S)), I), Id, Rel(100), IF P.half = 1 THEN 40000 ELSE 6000) THEN "square root of the mass"
     ELSE IF E.mv # <<>> /\ ~CloseSeq(E.mv, MatVec(I, E.vec), Rel(500), 400) THEN "product" ELSE ""

(* gs: gradients of the log-likelihoods of the observations                  *)
NoiseWhy ==
  LET B == NoiseB(E.gs, E.h)
      R == AsMat(E.s)                  \* square root of the remainder
      T == AsMat(E.g)                  \* square root of the noise part
      RR == MatMul(R, Transpose(R))
      TT == MatMul(T, Transpose(T))
      C == Diag(E.fr)
      over == \E i \in 1 .. P.dim : C[i][i] <= B[i][i] + 50
  IN IF ~(Tree(E.g) /\ Tree(E.s)) THEN "structure"
     ELSE IF \E i, j \in 1 .. P.dim : ~FRange(R[i][j]) \/ ~FRange(T[i][j]) THEN "undefined"
     ELSE IF P.diagonal = 1 /\ \E i \in 1 .. P.dim : R[i][i] < 0 \/ T[i][i] < 0 THEN "sign"
     ELSE IF P.diagonal = 1 /\ ~NearM(MatAdd(RR, TT), C, 500, 300) THEN "parts of the friction"
     ELSE IF P.diagonal = 1 /\ \E i \in 1 .. P.dim :
             /\ C[i][i] > B[i][i] + 50
             /\ ~Close(RR[i][i], C[i][i] - B[i][i], 300, 600) THEN "remaining friction"
     ELSE IF P.diagonal = 0 /\ E.psd = 1 /\ ~NearM(MatAdd(RR, B), C, 300, 800) THEN "remaining friction"
     ELSE IF P.diagonal = 0 /\ ~NearM(TT, B, 300, 800) THEN "estimated noise"
     ELSE ""

Why == CASE E.op = "rms" -> RmsWhy
         [] E.op = "mass" -> MassWhy
         [] E.op = "noise" -> NoiseWhy
         [] E.op = "update" -> ""
         [] OTHER -> E.op

TInit == /\ t \in 1 .. NTraces /\ l = 1 /\ v = OnesV(TraceCfg(t).dim) /\ xs = <<>>
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ LET w == Why IN
        IF w = ""
        THEN /\ l' = l + 1 /\ UNCHANGED t
             /\ IF E.op = "update"
                THEN /\ v' = RmsUpdate(v, E.grad, P.alpha)
                     /\ xs' = Append(xs, E.x)
                ELSE UNCHANGED <<v, xs>>
        ELSE Reject(t, l, w) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, v, xs>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, v, xs>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
