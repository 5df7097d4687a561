----------------------------- MODULE DataLoaderMC -----------------------------
(* Small exhaustive instances of DataLoader: two chains of one loader with   *)
(* all batches, two checkpoints.                                             *)
EXTENDS DataLoader, TLC
CONSTANTS N, MBs, Caches, MCKinds, Seeds, MaxPos, Handles, Names

Batches(mb) == [x : [1 .. mb -> All], m : [1 .. mb -> {0, 1}]]
BatchSeqs(mb, c) == [1 .. c -> Batches(mb)]

Init == Init0(N)
(* Candidate batches by scheme keep TLC from enumerating hopeless ones       *)
NextBatch(key, s) == {b \in Batches(key.mb) : BatchOK(key, s, b)}
RECURSIVE NextSeqs(_, _, _)
NextSeqs(key, s, c) ==
  IF c = 0 THEN {<<>>}
  ELSE UNION {{<<b>> \o r : r \in NextSeqs(key, Advance(key, s, b), c - 1)}
              : b \in NextBatch(key, s)}

Next ==
  \/ \E h \in Handles, k \in MCKinds, mb \in MBs, c \in Caches, s \in Seeds :
       /\ \A g \in Handles : g < h => g \in DOMAIN chains
       /\ Register(h, h, k, mb, c, IF s = 99 THEN -1 ELSE s)
  \/ \E h \in DOMAIN chains :
       /\ chains[h].st.pos + chains[h].key.cache <= MaxPos
       /\ \E bs \in NextSeqs(chains[h].key, chains[h].st, chains[h].key.cache) :
            GetBatches(h, bs)
  \/ \E h \in DOMAIN chains, k \in Names : SaveState(h, k)
  \/ \E h \in DOMAIN chains, k \in DOMAIN ckpts : LoadState(h, k)
Spec == Init /\ [][Next]_vars
===============================================================================
