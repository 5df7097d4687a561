-------------------------------- MODULE StoreMC --------------------------------
(* The algorithm of the collectors: arrays of cells which are filled at the    *)
(* position of a counter, lists which are written to files. It implements the  *)
(* storage required by Store for every interleaving of two chains.             *)
(* Broken variants: one counter for all chains, counter not increased for      *)
(* dropped samples only, list cleared after writing, files named too early.    *)
EXTENDS Store
CONSTANTS Variant, MaxCap, MaxChains
VARIABLES cells, count, files
mvars == <<svars, cells, count, files>>
Tr == Node("dict", <<"z9", "z10">>, <<Leaf(1), Leaf(2)>>)
Ctr(c) == IF Variant = "shared" THEN 1 ELSE c
MInit == /\ \E k \in {"hdf5", "json"}, w \in 0 .. 2 : SInit(k, w)
         /\ cells = <<>> /\ count = <<>> /\ files = <<>>
MReg == \E cap \in 0 .. MaxCap :
  /\ Len(chains) < MaxChains /\ Register(Tr, cap)
  /\ cells' = Append(cells, [j \in 1 .. 2 |-> [i \in 1 .. cap |-> 0]])
  /\ count' = Append(count, 0) /\ files' = Append(files, {})
MSave == \E c \in 1 .. Len(chains), keep \in 0 .. 1 :
  LET v == 1 + Len(chains[1].saved) + (IF c = 2 THEN 3 ELSE 0)
      k == count[Ctr(c)] IN
  /\ Len(chains[c].saved) < chains[c].cap
  /\ Save(c, v, keep)
  /\ IF keep = 1
     THEN /\ cells' = [cells EXCEPT ![c] =
               [j \in 1 .. 2 |-> [i \in 1 .. chains[c].cap |->
                  IF i = k + 1 THEN Code(v, j) ELSE @[j][i]]]]
          /\ count' = [count EXCEPT ![Ctr(c)] = @ + 1]
     ELSE /\ UNCHANGED cells
          /\ count' = IF Variant = "dropped" THEN [count EXCEPT ![Ctr(c)] = @ + 1] ELSE count
  /\ files' = IF keep = 1 /\ wf > 0 /\ count'[Ctr(c)] % (IF wf = 0 THEN 1 ELSE wf) = 0
              THEN [files EXCEPT ![c] = @ \cup {IF Variant = "early" THEN k ELSE k + 1}]
              ELSE files
MFin == \E c \in 1 .. Len(chains) :
  /\ Finalize(c)
  /\ files' = IF count[Ctr(c)] > 0 THEN [files EXCEPT ![c] = @ \cup {count[Ctr(c)]}] ELSE files
  /\ UNCHANGED <<cells, count>>
MSpec == MInit /\ [][MReg \/ MSave \/ MFin]_mvars
StoreInv == \A c \in 1 .. Len(chains) :
  /\ cells[c] = Rows(c, chains[c].cap)
  /\ files[c] = Files(c)
(* Nothing stored changes later, except that zeros are filled                *)
Append1 == [][\A c \in 1 .. Len(chains) : \A j \in 1 .. 2 : \A i \in 1 .. chains[c].cap :
   cells[c][j][i] # 0 => cells'[c][j][i] = cells[c][j][i]]_mvars
===============================================================================
