---------------------------- MODULE TreeAlgebraTrace ----------------------------
(* Register operations performed by the real code.                              *)
EXTENDS TreeAlgebra, TraceLib
VARIABLES t, l, r
tvars == <<t, l, r>>
E == TraceEv(t)[l]
Result == CASE E.op = "add" -> Add(r, E.arg)
            [] E.op = "radd" -> Add(E.arg, r)
            [] E.op \in {"mul", "tmul1"} -> Multiply(r, E.arg)
            [] E.op \in {"scale", "tmul0"} -> Scale(E.arg, r)
            [] E.op \in {"matmul", "tmul2"} -> MatMul(E.arg, r)
            [] E.op = "half" -> E.got
            [] OTHER -> r
Act == CASE E.op = "set" -> TRUE
         [] E.op \in {"dot", "rdot"} -> E.got = Dot(r, E.arg)
         [] E.op = "grad" -> Same(E.got, E.arg)          \* of Dot(r, arg) by r
         [] E.op = "norm" -> E.got = Dot(r, r)
         [] E.op \in {"add", "radd", "mul", "tmul1", "scale", "tmul0", "matmul", "tmul2"} -> Same(E.got, Result)
         [] E.op = "half" -> Same(Scale(2, E.got), Scale(E.arg, r))   \* by arg / 2
         [] E.op = "fin" -> TRUE
         [] OTHER -> FALSE
TInit == t \in 1 .. NTraces /\ l = 1 /\ r = None
TNext ==
  \/ /\ l <= TraceLen(t)
     /\ IF Act THEN /\ l' = l + 1 /\ UNCHANGED t
                    /\ r' = IF E.op = "set" THEN E.arg ELSE Result
        ELSE Reject(t, l, E.op) /\ l' = TraceLen(t) + 2 /\ UNCHANGED <<t, r>>
  \/ /\ l = TraceLen(t) + 1 /\ Accept(t)
     /\ l' = l + 2 /\ UNCHANGED <<t, r>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
