------------------------------- MODULE MCLegal ------------------------------
(***************************************************************************)
(* Every definition, legal or not, with members from the candidates of     *)
(* each position (LIB) on top of a library of definitions; printed for     *)
(* replay.  Members are named by position unless the candidate brings a    *)
(* name.                                                                   *)
(***************************************************************************)
EXTENDS Legal, Json, IOUtils

Lib == JsonDeserialize(IOEnv.LIB)
DoPrint == IOEnv.PRINT = "1"
Candidates == [struct |-> Lib.fields, union |-> Lib.arms, enum |-> Lib.enums]
Library == Analyse(Lib.defs)

ASSUME LegalText(Lib.defs)

VARIABLES kind, ks
vars == <<kind, ks>>
Init == kind \in {"struct", "union", "enum"} /\ ks = <<>>
Next == /\ Len(ks) < Len(Candidates[kind])
        /\ \E k \in 1..Len(Candidates[kind][Len(ks) + 1]) : ks' = Append(ks, k)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Names == <<"a", "b", "c", "d">>
Members == [x \in 1..Len(ks) |-> LET m == Candidates[kind][x][ks[x]]
                                 IN IF m.name = "" THEN [m EXCEPT !.name = Names[x]] ELSE m]
Def == [k |-> kind, name |-> "X", t |-> "", m |-> Members]

Verdict ==
    /\ Distinct(Symbols(Lib.defs \o <<Def>>))
    /\ \A m \in Uses(Def) : m \in Builtins \cup TypeNames(Lib.defs)
    /\ DefLegal(Library, Def)

(* What may stand in a larger definition: every rule is about a member and *)
(* what comes before it, except that unlimited members come last.          *)
Extensible(d) == d.k = "struct" => StructStiff(StructWire(Library.L, d.m)) # Unlimited
PrefixLegal ==
    (Len(ks) > 1 /\ Verdict) =>
        LET shorter == [Def EXCEPT !.m = SubSeq(Members, 1, Len(ks) - 1)]
        IN DefLegal(Library, shorter) /\ Extensible(shorter)
(* A legal definition has a layout of finite alignment 1, 2, 4 or 8.       *)
HasLayout == (ks # <<>> /\ Verdict) => AddDef(Library, Def).L["X"].al \in {1, 2, 4, 8}
Emit == (DoPrint /\ ks # <<>>) =>
        PrintT(<<"DEF", ToJson([k |-> kind, ks |-> ks, ok |-> IF Verdict THEN 1 ELSE 0])>>)
=============================================================================
