------------------------------- MODULE TraceLib -------------------------------
(***************************************************************************)
(* Common operators of all trace specifications.                           *)
(*                                                                         *)
(* The recorded executions are read from the JSON file named by the        *)
(* environment variable TRACE_FILE:                                        *)
(*   [traces |-> << [id |-> "..", cfg |-> [..], ev |-> <<event, ..>>] >>]  *)
(* Every trace gives one initial state of the trace specification, whose   *)
(* behaviour consumes the events one after another by taking actions of    *)
(* the design specification. When no action explains the next event, the   *)
(* trace is rejected. The verdict of each trace is printed.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Doc.traces)
TraceCfg(t) == Doc.traces[t].cfg
TraceEv(t) == Doc.traces[t].ev
TraceLen(t) == Len(Doc.traces[t].ev)

Has(r, f) == f \in DOMAIN r

Accept(t) == PrintT(<<"VERDICT", t, "ACCEPT", TraceLen(t), "">>)
Reject(t, l, why) == PrintT(<<"VERDICT", t, "REJECT", l, why>>)

(* The name of the first clause that does not hold, "" if all hold.        *)
(* Clauses are evaluated lazily in order, so later clauses may rely on     *)
(* earlier ones.                                                           *)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

SeqToSet(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE FoldL(_, _, _)
FoldL(Op(_, _), acc, s) ==
  IF s = <<>> THEN acc ELSE FoldL(Op, Op(acc, Head(s)), Tail(s))
===============================================================================
