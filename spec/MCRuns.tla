------------------------------- MODULE MCRuns -------------------------------
(* Every include graph of Count files and every way of naming some of them  *)
(* on the command line.  Runs are printed for replay.                       *)
EXTENDS Runs, Json, IOUtils, SequencesExt, FiniteSets

CONSTANTS Count
DoPrint == IOEnv.PRINT = "1"

VARIABLES includes, inputs, seen, outputs
vars == <<includes, inputs, seen, outputs>>

Graphs == {g \in [1..Count -> UNION {[1..k -> 1..Count] : k \in 0..(Count - 1)}] :
              \A f \in 1..Count : /\ \A k \in 1..Len(g[f]) : g[f][k] < f
                                  /\ \A k \in 1..(Len(g[f]) - 1) : g[f][k] < g[f][k + 1]}
Init == includes \in Graphs /\ inputs = <<>> /\ seen = Nothing /\ outputs = Nothing
Next == \E f \in 1..Count :
            /\ f \notin DOMAIN outputs
            /\ inputs' = Append(inputs, f)
            /\ seen' = Load(includes, f, seen)
            /\ outputs' = outputs @@ (f :> Load(includes, f, seen)[f])
            /\ UNCHANGED includes
Spec == Init /\ [][Next]_vars

(* neither the order nor the company of an input matters                   *)
FunctionOfContents == \A f \in DOMAIN outputs : outputs[f] = Meaning(includes, f)
SeenIsSound == \A f \in DOMAIN seen : seen[f] = Meaning(includes, f)
Emit == (DoPrint /\ inputs # <<>>) => PrintT(<<"RUN", ToJson([includes |-> includes, inputs |-> inputs])>>)
=============================================================================
