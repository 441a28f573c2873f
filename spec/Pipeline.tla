------------------------------- MODULE Pipeline -----------------------------
(***************************************************************************)
(* A run of prophyc.  Options are read, then the patch file, then every    *)
(* input file is parsed, then every output is generated of every file.     *)
(* Any stage may refuse, which ends the run with a diagnostic; otherwise   *)
(* the run ends when everything asked for is written.                      *)
(*                                                                         *)
(* A configuration is                                                      *)
(*   [opt    |-> what is wrong with the options ("" nothing, "version"     *)
(*               the version is asked for)                                 *)
(*    patch  |-> "" no patch, "fits", or what is wrong with it             *)
(*    files  |-> sequence of kinds of input files                          *)
(*    outs   |-> sequence of targets]                                      *)
(* Kinds of files that are fine: Fine; a target may refuse a kind of file  *)
(* it has no code for: Cannot.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Fine,     \* kinds of input files which parse
          Blank,    \* ones with nothing a patch could change
          Cannot    \* <<kind, target>> pairs which are refused

VARIABLES conf, stage, at, written, result
vars == <<conf, stage, at, written, result>>

Refuse == result' = "refused" /\ stage' = "end" /\ UNCHANGED <<conf, at, written>>
Go(s) == stage' = s /\ at' = 1 /\ UNCHANGED <<conf, written, result>>

Options ==
    /\ stage = "options"
    /\ IF conf.opt = "version" THEN result' = "done" /\ stage' = "end" /\ UNCHANGED <<conf, at, written>>
       ELSE IF conf.opt # "" \/ conf.files = <<>> \/ conf.outs = <<>> THEN Refuse
       ELSE Go("patch")

ReadPatch ==
    /\ stage = "patch"
    /\ IF conf.patch \in {"", "fits", "misfits"} THEN Go("parse") ELSE Refuse

Misfit(p, f) == p = "misfits" /\ f \notin Blank

Parse ==
    /\ stage = "parse"
    /\ IF at > Len(conf.files) THEN Go("generate")
       ELSE IF conf.files[at] \notin Fine \/ Misfit(conf.patch, conf.files[at]) THEN Refuse
       ELSE at' = at + 1 /\ UNCHANGED <<conf, stage, written, result>>

(* at runs over the outputs of the first file, then of the second, ...     *)
File(n) == 1 + ((n - 1) \div Len(conf.outs))
Target(n) == conf.outs[1 + ((n - 1) % Len(conf.outs))]
Jobs == Len(conf.files) * Len(conf.outs)

Generate ==
    /\ stage = "generate"
    /\ IF at > Jobs THEN result' = "done" /\ stage' = "end" /\ UNCHANGED <<conf, at, written>>
       ELSE IF <<conf.files[File(at)], Target(at)>> \in Cannot THEN Refuse
       ELSE /\ written' = written \cup {<<File(at), Target(at)>>}
            /\ at' = at + 1
            /\ UNCHANGED <<conf, stage, result>>

Start(c) == conf = c /\ stage = "options" /\ at = 1 /\ written = {} /\ result = ""
Next == Options \/ ReadPatch \/ Parse \/ Generate

---------------------------------------------------------------------------
AllWritten == {<<f, conf.outs[t]>> : f \in 1..Len(conf.files), t \in 1..Len(conf.outs)}
DoneIsComplete == (result = "done" /\ conf.opt # "version") => written = AllWritten
EndIsResult == (stage = "end") = (result # "")
NothingBeforeGenerating == written # {} => (stage \in {"generate", "end"} /\ conf.opt = "")
Ends == <>(result # "")

---------------------------------------------------------------------------
(* The outcome of a configuration, in one step.                            *)
Outcome(c) ==
    IF c.opt = "version" THEN "done"
    ELSE IF \/ c.opt # "" \/ c.files = <<>> \/ c.outs = <<>>
            \/ c.patch \notin {"", "fits", "misfits"}
            \/ \E f \in 1..Len(c.files) : c.files[f] \notin Fine \/ Misfit(c.patch, c.files[f])
            \/ \E f \in 1..Len(c.files), t \in 1..Len(c.outs) : <<c.files[f], c.outs[t]>> \in Cannot
         THEN "refused" ELSE "done"
OutcomeIsResult == result # "" => result = Outcome(conf)
=============================================================================
