-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Schemas in several files.  A file is                                    *)
(*   [p |-> path, inc |-> paths as written in its includes, val |-> number]*)
(* with paths as sequences of names.  Each file defines one constant, its  *)
(* own number plus the constants of the files it includes, so the constant *)
(* of a file tells which files were found.                                 *)
(*                                                                         *)
(* An include is looked for beside the including file, then in the include *)
(* directories in order.  A file is processed once, however often it is    *)
(* included.  A file that cannot be found, or that is included while being *)
(* processed itself, makes the compilation fail.  The working directory    *)
(* has no part in this.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Dir(p) == SubSeq(p, 1, Len(p) - 1)

RECURSIVE Join(_, _)
Join(d, r) == IF r = <<>> THEN d
              ELSE IF Head(r) = ".." THEN Join(Dir(d), Tail(r))
              ELSE Join(Append(d, Head(r)), Tail(r))

At(fs, p) == IF \E k \in 1..Len(fs) : fs[k].p = p THEN CHOOSE k \in 1..Len(fs) : fs[k].p = p ELSE 0

RECURSIVE FirstOf(_, _, _)
FirstOf(fs, ds, r) == IF ds = <<>> THEN 0
                      ELSE LET k == At(fs, Join(Head(ds), r))
                           IN IF k # 0 THEN k ELSE FirstOf(fs, Tail(ds), r)
Resolve(fs, dirs, me, r) == FirstOf(fs, <<Dir(fs[me].p)>> \o dirs, r)

Failed(why) == [ok |-> FALSE, why |-> why, done |-> <<>>, order |-> <<>>]

RECURSIVE Load(_, _, _, _, _), Includes(_, _, _, _, _, _), Sum(_, _, _, _)
(* values of the files me includes, from its k-th include on               *)
Sum(fs, dirs, me, done) ==
    LET S[k \in 0..Len(fs[me].inc)] ==
            IF k = 0 THEN 0 ELSE S[k - 1] + done[Resolve(fs, dirs, me, fs[me].inc[k])]
    IN S[Len(fs[me].inc)]

(* st: [ok, why, done: file -> value, order: files as their processing ended] *)
Load(fs, dirs, me, stack, st) ==
    IF me \in DOMAIN st.done THEN st
    ELSE IF me \in stack THEN Failed("cyclic")
    ELSE LET r == Includes(fs, dirs, me, 1, stack \cup {me}, st)
         IN IF ~r.ok THEN r
            ELSE [r EXCEPT !.done = @ @@ (me :> (fs[me].val + Sum(fs, dirs, me, r.done))),
                           !.order = Append(@, me)]
Includes(fs, dirs, me, k, stack, st) ==
    IF k > Len(fs[me].inc) THEN st
    ELSE LET t == Resolve(fs, dirs, me, fs[me].inc[k])
         IN IF t = 0 THEN Failed("missing")
            ELSE LET r == Load(fs, dirs, t, stack, st)
                 IN IF ~r.ok THEN r ELSE Includes(fs, dirs, me, k + 1, stack, r)

RECURSIVE Compile(_, _, _, _)
Compile(fs, dirs, mains, st) ==
    IF mains = <<>> THEN st
    ELSE LET r == Load(fs, dirs, Head(mains), {}, st)
         IN IF ~r.ok THEN r ELSE Compile(fs, dirs, Tail(mains), r)
Start == [ok |-> TRUE, why |-> "", done |-> <<>>, order |-> <<>>]
Outcome(fs, dirs, mains) == Compile(fs, dirs, mains, Start)
=============================================================================
