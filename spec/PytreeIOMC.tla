------------------------------- MODULE PytreeIOMC -------------------------------
(* All small trees: the laws are checked for each of them and they are printed *)
(* as inputs for the real code.                                                *)
EXTENDS PytreeIO, Json
CONSTANTS Deep, Emit, Rename
VARIABLE tree

RECURSIVE Number(_, _)
(* Numbers the leaves consecutively, returns <<tree, next>>                    *)
RECURSIVE NumberSeq(_, _)
NumberSeq(s, i) ==
  IF s = <<>> THEN <<<<>>, i>>
  ELSE LET h == Number(Head(s), i)
           r == NumberSeq(Tail(s), h[2])
       IN <<<<h[1]>> \o r[1], r[2]>>
Number(t, i) ==
  IF t.k = "leaf" THEN <<Leaf(i), i + 1>>
  ELSE LET r == NumberSeq(t.c, i) IN <<Node(t.k, t.n, r[1]), r[2]>>

L == Leaf(0)
Names(k, w) ==
  CASE k \in {"list", "tuple", "unk"} -> {[i \in 1 .. w |-> ""]}
    [] k = "nt" -> {IF w = 1 THEN <<"z1">> ELSE IF w = 2 THEN <<"z1", "a">> ELSE [i \in 1 .. w |-> KeyOrder[Len(KeyOrder) - i]]}
    [] k = "reg" -> {IF w = 1 THEN <<"c">> ELSE <<"w", "A">>}
    [] OTHER -> IF w = 0 THEN {<<>>} ELSE IF w = 1 THEN {<<"list_element_1">>, <<"b/c">>}
                ELSE IF w = 2 THEN {<<"z9", "z10">>, <<"a", "list_element_0">>, <<"#10", "#9">>}
                ELSE {<<"z10", "A", "z9">>}
Kinds == {"list", "tuple", "dict", "odict", "nt", "reg", "unk"}
MaxW(k) == IF k \in {"nt", "reg", "unk"} THEN 2 ELSE 2
MinW(k) == IF k \in {"nt", "reg", "unk"} THEN 1 ELSE 0
RECURSIVE Trees(_)
Level(sub) == {L, None} \cup
  UNION {UNION {{Node(k, n, c) : n \in Names(k, w), c \in [1 .. w -> sub]}
                 : w \in MinW(k) .. MaxW(k)} : k \in Kinds}
Trees(d) == IF d = 0 THEN {L, None} ELSE Level(Trees(d - 1))
T1 == Trees(1)
Small == {L, Node("list", <<"", "">>, <<L, L>>), Node("nt", <<"z1", "a">>, <<L, L>>),
          Node("dict", <<>>, <<>>), Node("list", <<>>, <<>>), None,
          Node("dict", <<"z9", "z10">>, <<L, L>>)}
Wide == {Node(k, [i \in 1 .. w |-> ""], [i \in 1 .. w |-> x]) : k \in {"list", "tuple"},
           w \in {10, 11, 13}, x \in Small}
Mixed == {Node("dict", <<"z9", "z10", "A">>, <<x, y, Node("list", [i \in 1 .. 12 |-> ""],
              [i \in 1 .. 12 |-> IF i % 5 = 1 THEN z ELSE L])>>) : x, y, z \in Small}
Two == Level(Small \cup {Node("unk", <<"", "">>, <<L, L>>), Node("reg", <<"w", "A">>, <<L, None>>)})
Three == {Node(k, n, <<x, y>>) : k \in {"dict", "list", "nt", "reg"},
            n \in {<<"z1", "a">>, <<"", "">>}, x \in T1, y \in Small}
All == {Number(t, 1)[1] : t \in T1 \cup Wide \cup Mixed \cup Two
          \cup (IF Deep THEN {t \in Three : (t.k = "list") = (t.n[1] = "") /\ (t.k # "nt" \/ t.n[1] = "z1")
                                     /\ (t.k # "reg" \/ FALSE)} ELSE {})}
Init == tree \in All /\ (Emit => PrintT(<<"BEHAVIOUR", ToJson(tree)>>))
Next == UNCHANGED tree
Spec == Init /\ [][Next]_tree
Laws == UniquePaths(tree) /\ Aligned(tree) /\ RoundTrip(tree) /\ SubTrees(tree)
(* A broken variant: list elements ordered by name, as in a sorted dict        *)
BadName(i) == "list_element_" \o NumName(i - 1)
SortedByName(w) == [i \in 1 .. w |-> IF w <= 10 THEN i ELSE
   IF i <= 2 THEN i ELSE IF i <= 2 + w - 10 THEN 8 + i ELSE i - (w - 10)]
BadLaw == ~Rename \/ tree.k # "list" \/
   [i \in 1 .. Len(tree.c) |-> Leaves(tree.c[SortedByName(Len(tree.c))[i]])]
     = [i \in 1 .. Len(tree.c) |-> Leaves(tree.c[i])]
===============================================================================
