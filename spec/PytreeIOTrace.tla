------------------------------ MODULE PytreeIOTrace ------------------------------
(* Conversions performed by the real code, compared with the specification.      *)
EXTENDS PytreeIO, TraceLib
VARIABLES t, l
tvars == <<t, l>>
E == TraceEv(t)[l]
Act == CASE E.op = "leaves" -> E.leaves = Leaves(E.tree)      \* order of jax itself
         [] E.op = "keys" -> E.keys = Paths(E.tree)
         [] E.op = "dict" -> /\ Len(E.items) = Len(Paths(E.tree))
                             /\ SeqToSet(E.items) = Dict(E.tree)
         [] E.op = "restore" -> E.got = E.tree
         [] E.op = "sub" -> E.got = E.tree.c[E.i]
         [] E.op = "fin" -> TRUE
         [] OTHER -> FALSE
TInit == t \in 1 .. NTraces /\ l = 1
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF Act THEN l' = l + 1 /\ UNCHANGED t
        ELSE Reject(t, l, E.op) /\ l' = TraceLen(t) + 2 /\ UNCHANGED t
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
