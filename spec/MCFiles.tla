------------------------------- MODULE MCFiles ------------------------------
(***************************************************************************)
(* Small arrangements of files and include directories, all of them, with  *)
(* decoys (the same name in several directories), diamonds, cycles and     *)
(* missing files.  Printed with their outcome for replay in prophyc.       *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, SequencesExt, FiniteSets

CONSTANTS Wide

DoPrint == IOEnv.PRINT = "1"

(* places where a file can be, and what files of that name may include     *)
A == <<"a.prophy">>
B == <<"b.prophy">>
Places == << <<"w", "a.prophy">>, <<"i", "a.prophy">>, <<"i", "b.prophy">>, <<"w", "s", "b.prophy">>, <<"j", "b.prophy">> >>
Main == <<"w", "m.prophy">>
MainIncludes == { <<A>>, <<B>>, <<A, B>>, <<B, A>>, << <<"s", "b.prophy">> >>, <<A, <<"s", "b.prophy">> >>,
                  << <<"..", "i", "a.prophy">> >>, << <<"m.prophy">> >>, <<>> }
               \cup IF Wide THEN { <<B, <<"..", "i", "a.prophy">> >>, << <<"s", "..", "..", "j", "b.prophy">>, A>> } ELSE {}
DirLists == { << <<"i">>, <<"j">> >>, << <<"j">>, <<"i">> >>, << <<"i">> >> }
            \cup IF Wide THEN { <<>>, << <<"w", "s">>, <<"i">> >> } ELSE {}
Base(p) == p[Len(p)]
MayInclude(p) == IF Base(p) = "a.prophy" THEN { <<>>, <<B>> } \cup (IF Wide THEN { << <<"s", "b.prophy">> >> } ELSE {})
                 ELSE { <<>>, <<A>> } \cup (IF Wide THEN { << <<"..", "a.prophy">> >> } ELSE {})
Weight(k) == LET W[j \in 0..k] == IF j = 0 THEN 1 ELSE 12 * W[j - 1] IN W[k]

VARIABLES fs, next, dirs
vars == <<fs, next, dirs>>

Init == /\ next = 1 /\ dirs \in DirLists
        /\ \E inc \in MainIncludes : fs = << [p |-> Main, inc |-> inc, val |-> 1] >>
Skip == next <= Len(Places) /\ next' = next + 1 /\ UNCHANGED <<fs, dirs>>
Put == /\ next <= Len(Places)
       /\ \E inc \in MayInclude(Places[next]) :
             fs' = Append(fs, [p |-> Places[next], inc |-> inc, val |-> Weight(next)])
       /\ next' = next + 1 /\ UNCHANGED dirs
Next == Skip \/ Put
Spec == Init /\ [][Next]_vars

Built == next > Len(Places)
Result == Outcome(fs, dirs, <<1>>)
Once == Built => LET r == Result
                 IN r.ok => /\ Cardinality(ToSet(r.order)) = Len(r.order)
                            /\ r.order[Len(r.order)] = 1
                            /\ ToSet(r.order) = DOMAIN r.done
(* Compiling the other files first changes nothing in the main one.        *)
Independent == Built => LET r == Result
                            all == Outcome(fs, dirs, [k \in 1..Len(fs) |-> Len(fs) + 1 - k])
                        IN (r.ok /\ all.ok) => all.done[1] = r.done[1]
Emit == (DoPrint /\ Built) =>
        LET r == Result
        IN PrintT(<<"FILES", ToJson([fs |-> fs, dirs |-> dirs, ok |-> IF r.ok THEN 1 ELSE 0, why |-> r.why,
                                     val |-> IF r.ok THEN r.done[1] ELSE 0, order |-> r.order])>>)
=============================================================================
