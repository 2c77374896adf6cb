----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Conformance direction code -> specification.                            *)
(* The file IOEnv.VF_TRACES holds one recorded trace per line:              *)
(*   {"hdr": {...}, "ev": [ {...}, ... ]}                                   *)
(* A domain module supplies                                                *)
(*   Begin(hdr)      the model state before the first event                *)
(*   Judge(st, ev)   [st |-> next model state, bad |-> set of clause names, *)
(*                    want |-> what the model expected (for the report)]    *)
(* The verdict is total: a rejected event is reported with the name of     *)
(* the failing clauses and the run continues with the model's own state,    *)
(* so that the rest of the trace is still checked.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Begin(_), Judge(_, _)

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)

VARIABLES tbTid, tbPos, tbSt

traceVars == <<tbTid, tbPos, tbSt>>

TraceInit == /\ tbTid \in 1..Len(Traces)
             /\ tbPos = 1
             /\ tbSt = Begin(Traces[tbTid].hdr)

TraceNext ==
    /\ tbPos <= Len(Traces[tbTid].ev)
    /\ LET ev == Traces[tbTid].ev[tbPos]
           r  == Judge(tbSt, ev)
       IN /\ IF r.bad = {} THEN TRUE
             ELSE PrintT("@@" \o ToJson([t |-> tbTid, p |-> tbPos, bad |-> r.bad, want |-> r.want]))
          /\ tbSt' = r.st
    /\ tbPos' = tbPos + 1
    /\ UNCHANGED tbTid

TraceView == <<tbTid, tbPos>>
=============================================================================
