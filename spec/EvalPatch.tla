------------------------------ MODULE EvalPatch -----------------------------
(* Outcomes of given scripts: one step per case of TRACE, results to OUT.  *)
EXTENDS Patch, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE).ev
VARIABLES i, out
Init == i = 1 /\ out = <<>>
Step == /\ i <= Len(Cases)
        /\ i' = i + 1
        /\ out' = Append(out, Outcome(Cases[i].defs, Cases[i].rules))
        /\ i = Len(Cases) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> <<>>, res |-> out'])
Spec == Init /\ [][Step]_<<i, out>>
=============================================================================
