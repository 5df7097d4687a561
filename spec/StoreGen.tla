-------------------------------- MODULE StoreGen -------------------------------
(* Histories of registrations, saves and finalizations (trees and capacities   *)
(* of the chains are chosen by the harness, cap >= number of saves).           *)
EXTENDS Store, Json
CONSTANTS D
VARIABLES ops, done
gvars == <<svars, ops, done>>
Log(e) == ops' = Append(ops, e)
GInit == SInit("memory", 0) /\ ops = <<>> /\ done = FALSE
GReg == /\ Len(chains) < 4 /\ Register(Leaf(1), 0)
        /\ Log([op |-> "reg"])
GSave == \E c \in 1 .. Len(chains), keep \in {0, 1}, copy \in 1 .. 4 :
  /\ (keep = 0 => copy = 1)
  /\ Save(c, Len(ops) + 1, keep) /\ Log([op |-> "save", c |-> c, keep |-> keep])
 
GFin == \E c \in 1 .. Len(chains) : Finalize(c) /\ Log([op |-> "fin", c |-> c])
                                   
GNext ==
  \/ /\ Len(ops) < D
     /\ (IF chains = <<>> THEN GReg ELSE (GReg \/ GSave \/ GFin))
     /\ UNCHANGED done
  \/ /\ Len(ops) = D /\ ~done /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
     /\ done' = TRUE /\ UNCHANGED <<svars, ops>>
GSpec == GInit /\ [][GNext]_gvars
===============================================================================
