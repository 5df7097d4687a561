----------------------------- MODULE TreeAlgebraMC -----------------------------
(* A register holding a tree is modified by arbitrary sequences of operations,  *)
(* while v follows with plain vectors.                                          *)
EXTENDS TreeAlgebra
CONSTANTS Depth, Variant
VARIABLES r, v, n, dot
vars == <<r, v, n, dot>>
S(x) == Leaf([sh |-> <<>>, dt |-> "f", d |-> <<x>>])
V2(x, y) == Leaf([sh |-> <<2>>, dt |-> "f", d |-> <<x, y>>])
M12(x, y) == Leaf([sh |-> <<1, 2>>, dt |-> "i", d |-> <<x, y>>])
E0 == Leaf([sh |-> <<0>>, dt |-> "f", d |-> <<>>])
(* The same structure filled with different values; dictionaries are written in *)
(* different orders                                                             *)
Shape(s, x, y, z) ==
  CASE s = 1 -> S(x)
    [] s = 2 -> Node("dict", <<"z9", "A">>, <<V2(x, y), S(z)>>)
    [] s = 3 -> Node("list", <<"", "", "">>, <<S(x), None, Node("dict", <<"w", "a", "c">>, <<S(y), E0, S(z)>>)>>)
    [] s = 4 -> Node("nt", <<"z1", "a">>, <<Node("odict", <<"z9", "A">>, <<S(x), M12(y, z)>>), None>>)
    [] s = 5 -> Node("dict", <<>>, <<>>)
Swap(t) == IF t.k = "dict" /\ Len(t.c) = 2
           THEN Node("dict", <<t.n[2], t.n[1]>>, <<t.c[2], t.c[1]>>) ELSE t
Operands(s) == {Shape(s, 1, 2, 3), Swap(Shape(s, 0 - 1, 1, 2))}
Mats(k) == {[i \in 1 .. k |-> [j \in 1 .. k |-> IF i = j THEN 1 ELSE 0]],
            [i \in 1 .. k |-> [j \in 1 .. k |-> ((i * j + i) % 3) - 1]]}
(* Broken variant: filled in the order of the record                            *)
RECURSIVE BadFill(_, _)
BadFill(t, w) ==
  IF t.k = "leaf" THEN [t EXCEPT !.v.d = w]
  ELSE LET sz == [i \in 1 .. Len(t.c) |-> Len(Vec(t.c[i]))]
       IN [t EXCEPT !.c = [c \in 1 .. Len(t.c) |->
            BadFill(t.c[c], SubSeq(w, SumTo(sz, c - 1) + 1, SumTo(sz, c)))]]
F(t, w) == IF Variant = "insertion" THEN BadFill(t, w) ELSE Fill(t, w)
Init == \E s \in 1 .. 5 : /\ r = Shape(s, 1, 0 - 2, 3) /\ v = Vec(r) /\ n = 0
                          /\ dot = <<s, 0, 0, 0>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E o \in Operands(dot[1]) :
                \/ r' = F(r, VAdd(Vec(r), Vec(o))) /\ v' = VAdd(v, Vec(o)) /\ UNCHANGED dot
                \/ r' = F(r, VMul(Vec(r), Vec(o))) /\ v' = VMul(v, Vec(o)) /\ UNCHANGED dot
                \/ dot' = <<dot[1], Dot(r, o), Dot(o, r), VDot(v, Vec(o))>> /\ UNCHANGED <<r, v>>
           \/ \E s \in {0, 2} : r' = F(r, VScale(s, Vec(r))) /\ v' = VScale(s, v) /\ UNCHANGED dot
           \/ \E m \in Mats(Len(v)) : r' = F(r, VMat(m, Vec(r))) /\ v' = VMat(m, v) /\ UNCHANGED dot
Spec == Init /\ [][Next]_vars
Homomorphic == Vec(r) = v
Structured == Same(Fill(r, Vec(Shape(dot[1], 1, 0 - 2, 3))), Shape(dot[1], 1, 0 - 2, 3))
Symmetric == dot[2] = dot[3] /\ dot[3] = dot[4]
(* Laws of linear algebra at every reached register                             *)
Linear == \A o \in Operands(dot[1]) : \A m \in Mats(Len(v)) :
  /\ Same(MatMul(m, Add(r, o)), Add(MatMul(m, r), MatMul(m, o)))
  /\ Same(Add(r, o), Add(r, Swap(o)))
  /\ Same(Scale(2, Add(r, o)), Add(Scale(2, r), Scale(2, o)))
  /\ Dot(MatMul(m, r), o) = Dot(r, MatMul([i \in 1 .. Len(v) |-> [j \in 1 .. Len(v) |-> m[j][i]]], o))
  /\ Dot(Multiply(r, o), r) = Dot(r, Multiply(o, r))
  /\ (r.k # "nt" => Same(Add(Scale(0 - 1, r), r), Scale(0, r)))
===============================================================================
