-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Runs of prophyc over the same files.  includes[f] lists the files which *)
(* f includes, all with smaller numbers.  A run takes input files in some  *)
(* order; it keeps what it has made of files it has seen, so that a file   *)
(* included by several inputs is read once.  What is generated of an input *)
(* is a function of that file and the files it includes: Meaning.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE Meaning(_, _)
Meaning(includes, f) == [file |-> f, of |-> [k \in 1..Len(includes[f]) |-> Meaning(includes, includes[f][k])]]

RECURSIVE Load(_, _, _), LoadAll(_, _, _)
(* the run's knowledge (file -> what was made of it) after loading f       *)
Load(includes, f, seen) ==
    IF f \in DOMAIN seen THEN seen
    ELSE LET s == LoadAll(includes, includes[f], seen)
         IN s @@ (f :> [file |-> f, of |-> [k \in 1..Len(includes[f]) |-> s[includes[f][k]]]])
LoadAll(includes, fs, seen) ==
    IF fs = <<>> THEN seen ELSE LoadAll(includes, Tail(fs), Load(includes, Head(fs), seen))

Nothing == [x \in {} |-> 0]
=============================================================================
