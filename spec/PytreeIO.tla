-------------------------------- MODULE PytreeIO --------------------------------
(***************************************************************************)
(* Conversion of pytrees to nested dictionaries (jax_sgmc.io).              *)
(*                                                                         *)
(* A tree is a record [k, n, c, v]: kind k, names n of the children c, and  *)
(* a leaf value v. Kinds: leaf, none, list, tuple, dict (flattened in the   *)
(* order of its keys), odict (order of insertion), nt (named tuple), reg    *)
(* (custom node with a registered rule), unk (custom node without a rule).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Keys of dictionaries in ascending order; "#i" is the integer i           *)
KeyOrder == <<"#2", "#9", "#10", "A", "a", "b", "b/c", "c", "list_element_0",
              "list_element_1", "w", "z1", "z10", "z9", "~">>
Rank(s) == CHOOSE i \in 1 .. Len(KeyOrder) : KeyOrder[i] = s

Leaf(v) == [k |-> "leaf", n |-> <<>>, c |-> <<>>, v |-> v]
None == [k |-> "none", n |-> <<>>, c |-> <<>>, v |-> 0]
Node(k, n, c) == [k |-> k, n |-> n, c |-> c, v |-> 0]

(* Positions of the children in the order of the flattened tree             *)
RECURSIVE SortKeys(_, _)
SortKeys(n, todo) ==
  IF todo = {} THEN <<>>
  ELSE LET m == CHOOSE i \in todo : \A j \in todo : Rank(n[i]) <= Rank(n[j])
       IN <<m>> \o SortKeys(n, todo \ {m})
Order(t) == IF t.k = "dict" THEN SortKeys(t.n, 1 .. Len(t.c))
            ELSE [i \in 1 .. Len(t.c) |-> i]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Leaves(_)
Leaves(t) == IF t.k = "leaf" THEN <<t.v>>
             ELSE LET o == Order(t)
                  IN Concat([i \in 1 .. Len(o) |-> Leaves(t.c[o[i]])])

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE NumName(_)
NumName(i) == IF i < 10 THEN Digits[i + 1] ELSE NumName(i \div 10) \o Digits[(i % 10) + 1]
(* Name of the i-th child                                                   *)
Name(t, i) == IF t.k \in {"list", "tuple"} THEN "list_element_" \o NumName(i - 1)
              ELSE t.n[i]

(* Paths of the leaves in the order of the flattened tree. Nodes without a  *)
(* rule are not descended, their leaves are numbered.                       *)
RECURSIVE Paths(_)
Paths(t) ==
  IF t.k = "leaf" THEN << <<>> >>
  ELSE IF t.k = "unk"
  THEN [i \in 1 .. Len(Leaves(t)) |-> <<"unknown~pytree~leaf~" \o NumName(i - 1)>>]
  ELSE LET o == Order(t)
       IN Concat([i \in 1 .. Len(o) |->
            LET ps == Paths(t.c[o[i]])
            IN [j \in 1 .. Len(ps) |-> <<Name(t, o[i])>> \o ps[j]]])

(* The dictionary as the set of its paths with their leaves                 *)
Dict(t) == LET p == Paths(t)
               v == Leaves(t)
           IN {<<p[i], v[i]>> : i \in 1 .. Len(p)}

(* Restoring: leaves found under the paths of the target                    *)
Lookup(d, p) == (CHOOSE e \in d : e[1] = p)[2]
RestoredLeaves(d, target) ==
  LET p == Paths(target) IN [i \in 1 .. Len(p) |-> Lookup(d, p[i])]
Sub(d, prefix) == {<<SubSeq(e[1], Len(prefix) + 1, Len(e[1])), e[2]>> :
  e \in {x \in d : Len(x[1]) >= Len(prefix)
                   /\ SubSeq(x[1], 1, Len(prefix)) = prefix}}

UniquePaths(t) == LET p == Paths(t) IN
  Cardinality({p[i] : i \in 1 .. Len(p)}) = Len(p)
Aligned(t) == Len(Paths(t)) = Len(Leaves(t))
RoundTrip(t) == RestoredLeaves(Dict(t), t) = Leaves(t)
SubTrees(t) == \A i \in 1 .. Len(t.c) :
   t.k \in {"dict", "list", "tuple", "nt", "odict", "reg"} =>
     RestoredLeaves(Sub(Dict(t), <<Name(t, i)>>), t.c[i]) = Leaves(t.c[i])
===============================================================================
