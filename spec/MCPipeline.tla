------------------------------ MODULE MCPipeline ----------------------------
(* All configurations with up to MaxFiles files and MaxOuts targets of the  *)
(* kinds given in LIB; finished runs are printed for replay.                *)
EXTENDS Pipeline, Json, IOUtils

CONSTANTS MaxFiles, MaxOuts
Lib == JsonDeserialize(IOEnv.LIB)
DoPrint == IOEnv.PRINT = "1"

Range(s) == {s[x] : x \in 1..Len(s)}
FineKinds == Range(Lib.fine)
CannotPairs == {<<Lib.cannot[x].f, Lib.cannot[x].t>> : x \in 1..Len(Lib.cannot)}
BlankKinds == Range(Lib.blank)
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Sets(S, n) == {s \in SeqUpTo(S, n) : \A x, y \in DOMAIN s : s[x] = s[y] => x = y}

(* one thing at a time is wrong, but for the files                         *)
Files == {fs \in SeqUpTo(Range(Lib.files), MaxFiles) : Len(fs) = 2 => \E x \in 1..2 : fs[x] \in FineKinds}
Outs(fs) == {os \in Sets(Range(Lib.outs), MaxOuts) :
                /\ Len(fs) = 2 => Len(os) <= 1
                /\ Len(os) > 1 => (Len(fs) = 1 /\ fs[1] \in FineKinds)}
Single(fs, os) == Len(fs) <= 1 /\ Len(os) <= 1

Init == \E fs \in Files : \E os \in Outs(fs) :
            \E o \in (IF Single(fs, os) THEN Range(Lib.opts) ELSE {""}) :
                \E p \in (IF Single(fs, os) /\ o = "" THEN Range(Lib.patches) ELSE {""}) :
                    Start([opt |-> o, patch |-> p, files |-> fs, outs |-> os])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == (DoPrint /\ result # "") =>
        PrintT(<<"RUN", ToJson([conf |-> conf, result |-> result])>>)
=============================================================================
