------------------------------- MODULE StoreTrace ------------------------------
(* Histories of the real collectors as behaviours of Store.                    *)
EXTENDS Store, TraceLib
VARIABLES t, l
tvars == <<svars, t, l>>
E == TraceEv(t)[l]
SetOK(items, want) == SeqToSet(items) = want /\ Len(items) = Cardinality(want)
Act ==
  CASE E.op = "reg" -> /\ Register(E.tree, E.cap) /\ E.c = Len(chains) + 1
    [] E.op = "save" -> Save(E.c, E.v, E.keep)
    [] E.op = "fin" -> Finalize(E.c)
       (* returned arrays, leaf by leaf, in the original tree structure        *)
    [] E.op = "arrays" -> /\ E.same = 1 /\ E.rows = Rows(E.c, chains[E.c].cap)
                          /\ (coll # "none" => chains[E.c].fin)
                          /\ UNCHANGED svars
    [] E.op = "count" -> E.count = Len(chains[E.c].saved) /\ UNCHANGED svars
       (* npz or hdf5: named rows                                              *)
    [] E.op = "named" -> /\ SetOK(E.items, Named(E.c, chains[E.c].cap))
                         /\ UNCHANGED svars
       (* json: the files of a chain and their contents                        *)
    [] E.op = "files" -> /\ {f.n : f \in SeqToSet(E.files)} = Files(E.c)
                         /\ \A f \in SeqToSet(E.files) : f.rows = Rows(E.c, f.n)
                         /\ UNCHANGED svars
    [] E.op = "end" -> UNCHANGED svars
    [] OTHER -> FALSE
TInit == t \in 1 .. NTraces /\ l = 1 /\ SInit(TraceCfg(t).coll, TraceCfg(t).wf)
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF ENABLED Act THEN Act /\ l' = l + 1 /\ UNCHANGED t
        ELSE Reject(t, l, E.op) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<svars, t>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<svars, t>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
