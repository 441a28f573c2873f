------------------------------- MODULE MCPatch ------------------------------
(***************************************************************************)
(* Every script of up to Depth rules from a menu (LIB) over definitions    *)
(* (LIB), with its outcome, printed for replay in prophyc.                 *)
(***************************************************************************)
EXTENDS Patch, Json, IOUtils

CONSTANT Depth
Lib == JsonDeserialize(IOEnv.LIB)
Base == Lib.defs
Menu == Lib.menu
DoPrint == IOEnv.PRINT = "1"

VARIABLE script
Init == script = <<>>
Next == Len(script) < Depth /\ \E k \in 1..Len(Menu) : script' = Append(script, k)
Spec == Init /\ [][Next]_script

Rules == [x \in 1..Len(script) |-> Menu[script[x]]]

ASSUME LegalSet(Base)

OkIsLegal == LET o == Outcome(Base, Rules) IN o.r = "ok" => LegalSet(o.defs) /\ Len(o.defs) = Len(Base)
AbsentIgnored ==
    Outcome(Base, Rules) = Outcome(Base, SelectSeq(Rules, LAMBDA r: r.m \in TypeNames(Base)))
(* Rules for different definitions commute.                                *)
Commutes ==
    \A x \in 1..(Len(script) - 1) :
        LET swapped == [Rules EXCEPT ![x] = Rules[x + 1], ![x + 1] = Rules[x]]
        IN Rules[x].m # Rules[x + 1].m => Outcome(Base, Rules) = Outcome(Base, swapped)
Emit == DoPrint => LET o == Outcome(Base, Rules)
                   IN PrintT(<<"SCRIPT", ToJson([ks |-> script, r |-> o.r, defs |-> o.defs])>>)
=============================================================================
