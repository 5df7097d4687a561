----------------------------- MODULE FixedPoint -------------------------------
(***************************************************************************)
(* Arithmetic on fixed-point numbers x / 2^20, |x| < 2^30, i.e. reals below *)
(* 1024 in absolute value with a resolution of about 1e-6. TLC has 32 bit   *)
(* integers only, so products and quotients are built from small pieces.    *)
(* Used to state the numerical laws of the schedules, adaption strategies   *)
(* and integrators and to compare them with recorded values.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
ONE == 1048576              \* 1.0
SQ == 1024
LN2 == 726817               \* ln 2
FLIM == 1073741823
FAbs(a) == IF a < 0 THEN -a ELSE a
FMax(a, b) == IF a < b THEN b ELSE a
FMin(a, b) == IF a < b THEN a ELSE b

(* Product of two non-negative numbers                                      *)
MulP(a, b) ==
  LET a2 == a \div ONE
      a1 == (a \div SQ) % SQ
      a0 == a % SQ
      bh == b \div SQ
      bl == b % SQ
  IN a2 * b + a1 * bh + (a1 * bl + a0 * bh + (a0 * bl) \div SQ) \div SQ
Sgn(a) == IF a < 0 THEN -1 ELSE 1
(* The smaller factor is split, so that no intermediate result overflows    *)
Mul(a, b) ==
  LET x == FAbs(a)
      y == FAbs(b)
  IN Sgn(a) * Sgn(b) * (IF x < y THEN MulP(x, y) ELSE MulP(y, x))

(* Quotient by long division                                                *)
RECURSIVE DivBits(_, _, _, _)
DivBits(q, r, b, n) ==
  IF n = 0 THEN q
  ELSE IF 2 * r >= b THEN DivBits(2 * q + 1, 2 * r - b, b, n - 1)
       ELSE DivBits(2 * q, 2 * r, b, n - 1)
DivP(a, b) == DivBits(a \div b, a % b, b, 20)
Div(a, b) == Sgn(a) * Sgn(b) * DivP(FAbs(a), FAbs(b))

(* Numbers from fractions of integers                                       *)
Frac(p, q) == Sgn(p) * Sgn(q) * DivBits(FAbs(p) \div FAbs(q), FAbs(p) % FAbs(q), FAbs(q), 20)
Fix(n) == n * ONE

(* Integer power                                                            *)
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN ONE ELSE Mul(a, PowI(a, n - 1))

(* Exponential: e^x = 2^n e^r, |r| <= ln(2)/2                               *)
RECURSIVE ExpSum(_, _, _, _)
ExpSum(s, t, r, n) ==
  IF n > 10 THEN s
  ELSE LET u == Mul(t, r) IN ExpSum(s + u \div n, (u \div n), r, n + 1)
RECURSIVE Shift(_, _)
Shift(x, n) == IF n = 0 THEN x
               ELSE IF n > 0 THEN Shift(2 * x, n - 1) ELSE Shift((x + 1) \div 2, n + 1)
Exp(x) ==
  LET n == (x + LN2 \div 2) \div LN2
      r == x - n * LN2
  IN IF n > 9 THEN FLIM ELSE IF n < -21 THEN 0
     ELSE Shift(ExpSum(ONE, ONE, r, 1), n)

(* Logarithm of positive numbers by the series of artanh                    *)
RECURSIVE Norm(_, _)
Norm(x, e) == IF x >= 2 * ONE THEN Norm(x \div 2, e + 1)
              ELSE IF x < ONE THEN Norm(2 * x, e - 1) ELSE <<x, e>>
RECURSIVE AtanhSum(_, _, _, _)
AtanhSum(s, t, z2, k) ==
  IF k > 13 THEN s ELSE AtanhSum(s + t \div k, Mul(t, z2), z2, k + 2)
Ln(x) ==
  LET ne == Norm(x, 0)
      z == Div(ne[1] - ONE, ne[1] + ONE)
  IN ne[2] * LN2 + 2 * AtanhSum(0, z, Mul(z, z), 1)

(* Integer square root of an integer, and square root of a number           *)
RECURSIVE Newton(_, _, _)
Newton(x, y, n) == IF n = 0 THEN y ELSE Newton(x, (y + Div(x, y)) \div 2, n - 1)
RECURSIVE StartRoot(_, _)
StartRoot(x, y) == IF y > 1 /\ Mul(y, y) > x THEN StartRoot(x, y \div 2) ELSE y
Sqrt(x) == IF x <= 0 THEN 0
           ELSE LET y == StartRoot(x, 32 * ONE - 1) IN Newton(x, FMax(2 * y, 2), 6)

(* Real power of a positive number                                          *)
Pow(x, y) == IF y = 0 THEN ONE ELSE Exp(Mul(y, Ln(x)))

(* Equal up to rounding: relative 2^-k of the larger value plus abs         *)
Close(a, b, k, abs) ==
  /\ FAbs(a) <= FLIM /\ FAbs(b) <= FLIM
  /\ FAbs(a - b) <= abs + FMax(FAbs(a), FAbs(b)) \div k
RECURSIVE CloseSeq(_, _, _, _)
CloseSeq(u, v, k, abs) ==
  /\ Len(u) = Len(v)
  /\ \A i \in 1 .. Len(u) : Close(u[i], v[i], k, abs)
FRange(a) == FAbs(a) <= FLIM

RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + FSum(Tail(s))
Dot(u, v) == FSum([i \in 1 .. Len(u) |-> Mul(u[i], v[i])])
VAdd(u, v) == [i \in 1 .. Len(u) |-> u[i] + v[i]]
VScale(a, v) == [i \in 1 .. Len(v) |-> Mul(a, v[i])]
VMul(u, v) == [i \in 1 .. Len(u) |-> Mul(u[i], v[i])]
===============================================================================
