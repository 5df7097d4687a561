------------------------------ MODULE TreeAlgebra ------------------------------
(***************************************************************************)
(* Pytrees as vectors (jax_sgmc.util, property C22).                       *)
(*                                                                         *)
(* A leaf holds an array v = [sh, dt, d] with shape, type and the values    *)
(* in row-major order. Vec concatenates the values in the order of the      *)
(* flattened tree, Fill is its inverse for a given structure.               *)
(***************************************************************************)
EXTENDS PytreeIO
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))

Vec(t) == LET l == Leaves(t) IN Concat([i \in 1 .. Len(l) |-> l[i].d])
RECURSIVE Fill(_, _)
Fill(t, v) ==
  IF t.k = "leaf" THEN [t EXCEPT !.v.d = v]
  ELSE LET o == Order(t)
           sz == [i \in 1 .. Len(o) |-> Len(Vec(t.c[o[i]]))]
           pos(c) == CHOOSE i \in 1 .. Len(o) : o[i] = c
           first(c) == SumTo(sz, pos(c) - 1)
       IN [t EXCEPT !.c = [c \in 1 .. Len(t.c) |->
            Fill(t.c[c], SubSeq(v, first(c) + 1, first(c) + sz[pos(c)]))]]

(* Vector operations                                                        *)
VAdd(a, b) == [i \in 1 .. Len(a) |-> a[i] + b[i]]
VMul(a, b) == [i \in 1 .. Len(a) |-> a[i] * b[i]]
VScale(s, a) == [i \in 1 .. Len(a) |-> s * a[i]]
VDot(a, b) == Sum(VMul(a, b))
VMat(m, a) == [i \in 1 .. Len(a) |-> VDot(m[i], a)]

(* Tree operations                                                          *)
Add(a, b) == Fill(a, VAdd(Vec(a), Vec(b)))
Multiply(a, b) == Fill(a, VMul(Vec(a), Vec(b)))
Scale(s, a) == Fill(a, VScale(s, Vec(a)))
MatMul(m, a) == Fill(a, VMat(m, Vec(a)))
Dot(a, b) == VDot(Vec(a), Vec(b))

(* Same pytree: structure, shapes, types and values. The order of insertion *)
(* of the keys of a dictionary is not part of it.                           *)
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k /\ Len(a.c) = Len(b.c)
  /\ IF a.k = "leaf" THEN a.v.sh = b.v.sh /\ a.v.dt = b.v.dt /\ a.v.d = b.v.d
     ELSE LET o == Order(a)
              p == Order(b)
          IN \A i \in 1 .. Len(o) : a.n[o[i]] = b.n[p[i]] /\ Same(a.c[o[i]], b.c[p[i]])
===============================================================================
