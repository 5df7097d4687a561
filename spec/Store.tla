--------------------------------- MODULE Store ---------------------------------
(***************************************************************************)
(* Storage of the data collectors (property C11).                          *)
(*                                                                         *)
(* Every chain registers a sample tree (see PytreeIO) and the number of    *)
(* samples cap. A sample is a number v; its leaf j (in the order of the    *)
(* flattened tree) holds the code v * 64 + j, cells which have not been    *)
(* written hold zero. The storage of a chain is a function of the samples  *)
(* saved by this chain only:                                               *)
(*   arrays  returned by memory, npz, none: one row of cap cells per leaf  *)
(*   npz     file with the same cells under the joined path of the leaf    *)
(*   hdf5    datasets with these cells, at any time                        *)
(*   json    after every wf samples and at the end a file with all samples *)
(***************************************************************************)
EXTENDS PytreeIO

VARIABLES coll,   \* kind of the collector
          wf,     \* write frequency (json)
          chains  \* sequence of registered chains
svars == <<coll, wf, chains>>

Colls == {"memory", "npz", "json", "hdf5", "none"}
SInit(c, w) == coll = c /\ wf = w /\ chains = <<>>

Register(tree, cap) ==
  /\ chains' = Append(chains, [tree |-> tree, cap |-> cap, saved |-> <<>>, fin |-> FALSE])
  /\ UNCHANGED <<coll, wf>>
Save(c, v, keep) ==
  /\ c \in 1 .. Len(chains) /\ ~chains[c].fin
  /\ chains' = IF keep = 1 THEN [chains EXCEPT ![c].saved = Append(@, v)] ELSE chains
  /\ UNCHANGED <<coll, wf>>
Finalize(c) ==
  /\ c \in 1 .. Len(chains) /\ ~chains[c].fin
  /\ chains' = [chains EXCEPT ![c].fin = TRUE]
  /\ UNCHANGED <<coll, wf>>

----------------------------------------------------------------------------
(* What the storage of a chain has to contain                               *)
Code(v, j) == v * 64 + j
Cells(c, j, num) ==
  [i \in 1 .. num |-> IF i <= Len(chains[c].saved)
                      THEN Code(chains[c].saved[i], j) ELSE 0]
IntName == [x \in {"#2", "#9", "#10"} |->
              CASE x = "#2" -> "2" [] x = "#9" -> "9" [] OTHER -> "10"]
Str(k) == IF k \in DOMAIN IntName THEN IntName[k] ELSE k
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN Str(p[1])
           ELSE Str(p[1]) \o "/" \o Join(Tail(p))
NLeaves(c) == Len(Leaves(chains[c].tree))
Rows(c, num) == [j \in 1 .. NLeaves(c) |-> Cells(c, j, num)]
Named(c, num) == LET p == Paths(chains[c].tree)
                 IN {<<Join(p[j]), Cells(c, j, num)>> : j \in 1 .. Len(p)}
(* Numbers of samples for which there are JSON files                        *)
Files(c) ==
  LET k == Len(chains[c].saved)
  IN {i \in 1 .. k : wf > 0 /\ i % wf = 0}
     \cup (IF chains[c].fin /\ k > 0 THEN {k} ELSE {})
===============================================================================
