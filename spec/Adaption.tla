------------------------------- MODULE Adaption -------------------------------
(***************************************************************************)
(* Adaption strategies (property C16) on flattened vectors of fixed-point  *)
(* numbers.                                                                *)
(***************************************************************************)
EXTENDS FixedPoint
ZeroV(n) == [i \in 1 .. n |-> 0]
OnesV(n) == [i \in 1 .. n |-> ONE]

(* RMSprop: exponential average of the squared gradient                     *)
RmsUpdate(v, g, alpha) ==
  [i \in 1 .. Len(v) |-> Mul(alpha, v[i]) + Mul(ONE - alpha, Mul(g[i], g[i]))]
RmsG(v, lmbd) == [i \in 1 .. Len(v) |-> Div(ONE, lmbd + Sqrt(v[i]))]

(* Population covariance of a sequence of vectors                           *)
Col(xs, i) == [k \in 1 .. Len(xs) |-> xs[k][i]]
MeanOf(u) == FSum(u) \div Len(u)
CovOf(xs, i, j) ==
  LET u == Col(xs, i)
      v == Col(xs, j)
      mu == MeanOf(u)
      mv == MeanOf(v)
  IN FSum([k \in 1 .. Len(xs) |-> Mul(u[k] - mu, v[k] - mv)]) \div Len(xs)
CovMat(xs) == LET n == Len(xs[1]) IN [i \in 1 .. n |-> [j \in 1 .. n |-> CovOf(xs, i, j)]]
Diag(v) == [i \in 1 .. Len(v) |-> [j \in 1 .. Len(v) |-> IF i = j THEN v[i] ELSE 0]]
Transpose(A) == [j \in 1 .. Len(A[1]) |-> [i \in 1 .. Len(A) |-> A[i][j]]]
MatMul(A, B) == LET T == Transpose(B) IN [i \in 1 .. Len(A) |-> [j \in 1 .. Len(T) |-> Dot(A[i], T[j])]]
MatVec(A, v) == [i \in 1 .. Len(A) |-> Dot(A[i], v)]
MatAdd(A, B) == [i \in 1 .. Len(A) |-> VAdd(A[i], B[i])]
MatScale(a, A) == [i \in 1 .. Len(A) |-> VScale(a, A[i])]

(* Inverse mass after the samples xs: the initial one until burnin samples  *)
(* have been seen, then forever the covariance of the first burnin samples  *)
InvMass(ini, xs, burnin, diagonal) ==
  IF Len(xs) < burnin THEN Diag(ini)
  ELSE LET S == SubSeq(xs, 1, burnin)
       IN IF diagonal THEN Diag([i \in 1 .. Len(ini) |-> CovOf(S, i, i)]) ELSE CovMat(S)

(* Noise model: covariance V (with n - 1) of the gradients gs of the        *)
(* log-likelihoods of the batch, B = h/2 V                                  *)
NoiseB(gs, h) ==
  LET n == Len(gs)
  IN [i \in 1 .. Len(gs[1]) |-> [j \in 1 .. Len(gs[1]) |->
       Mul(h \div 2, (n * CovOf(gs, i, j)) \div (n - 1))]]
===============================================================================
