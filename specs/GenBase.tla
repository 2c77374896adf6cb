------------------------------ MODULE GenBase ------------------------------
(***************************************************************************)
(* Exploration of a domain module's state machine, and conformance         *)
(* direction specification -> code: every behaviour of length GenDepth is   *)
(* printed as one JSON line and replayed against the implementation.       *)
(* A domain module supplies                                                *)
(*   Start            set of initial model states                          *)
(*   Ops(st)          set of operations (records) enabled in st            *)
(*   Apply(st, op)    the model state after op                             *)
(*   Safe(st)         the properties, as a predicate on model states        *)
(*   SafeStep(st,op)  the properties of one step                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start, Ops(_), Apply(_, _), Safe(_), SafeStep(_, _), GenDepth, Emit

VARIABLES gbSt, gbHist, gbIni

genVars == <<gbSt, gbHist, gbIni>>

GenInit == gbSt \in Start /\ gbIni = gbSt /\ gbHist = <<>>

GenNext == /\ Len(gbHist) < GenDepth
           /\ \E op \in Ops(gbSt) :
                /\ Assert(SafeStep(gbSt, op), <<"SafeStep violated", gbSt, op>>)
                /\ gbSt' = Apply(gbSt, op)
                /\ gbHist' = Append(gbHist, op)
           /\ UNCHANGED gbIni

GenSafe == Safe(gbSt)

GenView == gbSt

EmitHist == IF Emit /\ Len(gbHist) = GenDepth
            THEN PrintT("@@" \o ToJson([hdr |-> gbIni, ev |-> gbHist]))
            ELSE TRUE
=============================================================================
