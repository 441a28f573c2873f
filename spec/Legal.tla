-------------------------------- MODULE Legal -------------------------------
(***************************************************************************)
(* Which definitions are a schema: the composability rules of              *)
(* docs/schema.rst.  Unlike Schema, which lays out legal definitions, this *)
(* module reads any set of definitions, in any order.                      *)
(* Numbers are as in Schema, except that array sizes may be any integers   *)
(* and values (of enumerators and discriminators) have four bytes only     *)
(* when they are in the range of 32 bits.                                  *)
(***************************************************************************)
EXTENDS Schema

SeqMap(f(_), seq) == [x \in 1..Len(seq) |-> f(seq[x])]
Flatten(seqs) == FoldLeft(LAMBDA a, b: a \o b, <<>>, seqs)
Distinct(seq) == \A x, y \in 1..Len(seq) : seq[x] = seq[y] => x = y

(* Every name the definitions put in the common scope.                     *)
Symbols(defs) ==
    Flatten(SeqMap(LAMBDA d: <<d.name>> \o (IF d.k = "enum" THEN SeqMap(LAMBDA m: m.name, d.m) ELSE <<>>), defs))
TypeNames(defs) == {defs[x].name : x \in 1..Len(defs)}

Uses(d) ==
    CASE d.k = "enum"    -> {}
      [] d.k = "typedef" -> {d.t}
      [] OTHER           -> {d.m[x].t : x \in 1..Len(d.m)}

TypesKnown(defs) == \A x \in 1..Len(defs) : Uses(defs[x]) \subseteq Builtins \cup TypeNames(defs)

(* Dependency order; shorter than the input when definitions are cyclic.   *)
RECURSIVE Arrange(_, _, _)
Arrange(defs, done, out) ==
    LET ready == SelectSeq(defs, LAMBDA d: d.name \notin done /\ Uses(d) \subseteq Builtins \cup done)
    IN IF ready = <<>> THEN out
       ELSE Arrange(defs, done \cup {ready[x].name : x \in 1..Len(ready)}, out \o ready)
Arranged(defs) == Arrange(defs, {}, <<>>)

---------------------------------------------------------------------------
(* Rules on the members of one definition, given the analysed definitions  *)
(* X it builds on.                                                         *)

Array(m) == m.a \in {"fix", "dyn", "lim", "greedy", "ext", "xlim"}

SizerLegal(X, ms, i) ==
    \E j \in 1..(i - 1) :
        /\ ms[j].name = ms[i].s
        /\ ms[j].a = "plain"
        /\ X.K[ms[j].t].r \in Integral

MemberLegal(X, ms, i) ==
    LET m == ms[i]
        st == X.L[m.t].st
    IN /\ m.t = "byte" => Array(m)
       /\ m.a \in {"fix", "lim", "xlim"} => m.n > 0
       /\ m.a \in {"fix", "lim", "xlim", "opt"} => st = Fixed
       /\ Array(m) => st # Unlimited
       /\ m.a \in {"ext", "xlim"} => SizerLegal(X, ms, i)
       /\ (m.a = "greedy" \/ st = Unlimited) => i = Len(ms)

(* Counters which come with arrays have names as well.                     *)
FieldNames(ms) ==
    Flatten(SeqMap(LAMBDA m: IF m.a \in {"dyn", "lim"} THEN <<"num_of_" \o m.name, m.name>> ELSE <<m.name>>, ms))

StructLegal(X, ms) ==
    /\ ms # <<>>
    /\ Distinct(FieldNames(ms))
    /\ \A x \in 1..Len(ms) : MemberLegal(X, ms, x)

UnionLegal(X, ms) ==
    /\ ms # <<>>
    /\ Distinct(SeqMap(LAMBDA m: m.name, ms))
    /\ Distinct(SeqMap(LAMBDA m: m.v, ms))
    /\ \A x \in 1..Len(ms) : ms[x].t # "byte" /\ X.L[ms[x].t].st = Fixed /\ Len(ms[x].v) = DiscWidth

EnumLegal(ms) ==
    /\ ms # <<>>
    /\ \A x \in 1..Len(ms) : Len(ms[x].v) = EnumWidth

DefLegal(X, d) ==
    CASE d.k = "struct"  -> StructLegal(X, d.m)
      [] d.k = "union"   -> UnionLegal(X, d.m)
      [] d.k = "enum"    -> EnumLegal(d.m)
      [] d.k = "typedef" -> d.t # "byte"

(* Definitions in dependency order, each legal upon the earlier ones.      *)
AllLegal(defs) ==
    FoldLeft(LAMBDA acc, d: IF acc.ok /\ DefLegal(acc.X, d) THEN [ok |-> TRUE, X |-> AddDef(acc.X, d)]
                            ELSE [ok |-> FALSE, X |-> acc.X],
             [ok |-> TRUE, X |-> EmptySchema], defs).ok

NamesLegal(defs) == Distinct(Symbols(defs)) /\ TypeNames(defs) \cap Builtins = {}

(* Where definitions may stand in any order.                               *)
LegalSet(defs) ==
    /\ NamesLegal(defs)
    /\ Len(Arranged(defs)) = Len(defs)
    /\ AllLegal(Arranged(defs))

InOrder(defs) ==
    \A x \in 1..Len(defs) : Uses(defs[x]) \subseteq Builtins \cup {defs[y].name : y \in 1..(x - 1)}

(* The prophy language: a definition has to come before its uses.          *)
LegalText(defs) ==
    /\ NamesLegal(defs)
    /\ InOrder(defs)
    /\ AllLegal(defs)
---------------------------------------------------------------------------
(* The rules on how types may be put together alone: those which a runtime *)
(* library can tell from single definitions, without names and numbers.    *)

(* Enumerations and bytes count for the library.                           *)
Counted(X, ms, i) ==
    \E j \in 1..(i - 1) :
        /\ ms[j].name = ms[i].s
        /\ ms[j].a = "plain"
        /\ X.K[ms[j].t].r \in Integral \cup {"byte"} \/ X.K[ms[j].t].k = "enum"

Composes(X, ms, i) ==
    LET m == ms[i]
        st == X.L[m.t].st
    IN /\ m.a = "opt" \/ (m.a \in {"fix", "lim", "xlim"} /\ m.n > 0) => st = Fixed
       /\ Array(m) => st # Unlimited
       /\ m.a \in {"ext", "xlim"} => Counted(X, ms, i)
       /\ (m.a = "greedy" \/ st = Unlimited) => i = Len(ms)

Composable(X, d) ==
    CASE d.k = "struct" -> \A x \in 1..Len(d.m) : Composes(X, d.m, x)
      [] d.k = "union"  -> \A x \in 1..Len(d.m) : X.L[d.m[x].t].st = Fixed
      [] OTHER          -> TRUE

AllComposable(defs) ==
    FoldLeft(LAMBDA acc, d: IF acc.ok /\ Composable(acc.X, d) THEN [ok |-> TRUE, X |-> AddDef(acc.X, d)]
                            ELSE [ok |-> FALSE, X |-> acc.X],
             [ok |-> TRUE, X |-> EmptySchema], defs).ok
=============================================================================
