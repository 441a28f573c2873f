-------------------------------- MODULE Patch -------------------------------
(***************************************************************************)
(* Patch scripts (docs/other_schemas.rst).  Definitions are as in Schema,  *)
(* but members are the ones of the compiler's model: counters are always   *)
(* explicit, so that an arity is one of plain, opt, fix, ext, xlim, greedy.*)
(* A rule is [m |-> name of the definition, act |-> action,                *)
(* p |-> parameters, q |-> their numeric values (-1: not a number),        *)
(* id |-> whether each could be a name].                                   *)
(***************************************************************************)
EXTENDS Legal

Fail == [ok |-> FALSE, open |-> FALSE, d |-> <<>>]
(* open: the documentation leaves to the implementation whether the rule   *)
(* fails.                                                                  *)
Done(d) == [ok |-> TRUE, open |-> FALSE, d |-> d]
DoneIf(certain, d) == [ok |-> TRUE, open |-> ~certain, d |-> d]

PlainMember(name, t) == [name |-> name, c |-> <<>>, t |-> t, a |-> "plain", n |-> 0, s |-> "", v |-> <<>>]

HasField(d, f) == \E x \in 1..Len(d.m) : d.m[x].name = f
FieldIndex(d, f) == CHOOSE x \in 1..Len(d.m) : d.m[x].name = f /\ \A y \in 1..(x - 1) : d.m[y].name # f
Shaped(m, a, n, s) == [m EXCEPT !.a = a, !.n = n, !.s = s]
WithField(d, x, m) == [d EXCEPT !.m[x] = m]

ApplyRule(d, r) ==
    LET np == Len(r.p)
        struct == d.k = "struct"
        f == r.p[1]
        x == FieldIndex(d, f)
        has == np >= 1 /\ HasField(d, f)
        before(s) == \E y \in 1..(x - 1) : d.m[y].name = s
    IN CASE r.act = "type" ->
              IF struct /\ np = 2 /\ has THEN Done(WithField(d, x, [d.m[x] EXCEPT !.t = r.p[2]])) ELSE Fail
         [] r.act = "insert" ->
              IF struct /\ np = 3 /\ r.q[1] >= 0 /\ r.id[2]
              THEN LET at == IF r.q[1] < Len(d.m) THEN r.q[1] ELSE Len(d.m)
                   IN Done([d EXCEPT !.m = SubSeq(d.m, 1, at) \o <<PlainMember(r.p[2], r.p[3])>>
                                           \o SubSeq(d.m, at + 1, Len(d.m))])
              ELSE Fail
         [] r.act = "remove" ->
              IF struct /\ np = 1 /\ has
              THEN Done([d EXCEPT !.m = SubSeq(d.m, 1, x - 1) \o SubSeq(d.m, x + 1, Len(d.m))]) ELSE Fail
         [] r.act = "dynamic" ->
              IF struct /\ np = 2 /\ has
              THEN DoneIf(before(r.p[2]), WithField(d, x, Shaped(d.m[x], "ext", 0, r.p[2]))) ELSE Fail
         [] r.act = "greedy" ->
              IF struct /\ np = 1 /\ has
              THEN DoneIf(x = Len(d.m), WithField(d, x, Shaped(d.m[x], "greedy", 0, ""))) ELSE Fail
         [] r.act = "static" ->
              IF struct /\ np = 2 /\ has
              THEN DoneIf(r.q[2] >= 0, WithField(d, x, Shaped(d.m[x], "fix", r.q[2], ""))) ELSE Fail
         [] r.act = "limited" ->
              IF struct /\ np = 2 /\ has /\ d.m[x].a = "fix" /\ before(r.p[2])
              THEN Done(WithField(d, x, Shaped(d.m[x], "xlim", d.m[x].n, r.p[2]))) ELSE Fail
         [] r.act = "struct" ->
              IF d.k = "union" /\ np = 0
              THEN Done([d EXCEPT !.k = "struct",
                                  !.m = [y \in 1..Len(d.m) |-> PlainMember(d.m[y].name, d.m[y].t)]])
              ELSE Fail
         [] r.act = "rename" ->
              IF np \in 1..2 /\ ~r.id[np] THEN Fail
              ELSE IF np = 1 THEN Done([d EXCEPT !.name = r.p[1]])
              ELSE IF np = 2 /\ d.k \in {"struct", "union"} /\ has
              THEN Done(WithField(d, x, [d.m[x] EXCEPT !.name = r.p[2]])) ELSE Fail
         [] OTHER -> Fail

(* All rules for the original name of a definition, in their order.        *)
ApplyAll(d, rules) ==
    LET mine == SelectSeq(rules, LAMBDA r: r.m = d.name)
    IN FoldLeft(LAMBDA acc, r: IF ~acc.ok THEN acc
                               ELSE LET next == ApplyRule(acc.d, r)
                                    IN [next EXCEPT !.open = acc.open \/ next.open],
                Done(d), mine)

(* Isar takes byte as a type of single fields too, the language does not.  *)
LoneByte(d) == \/ d.k = "typedef" /\ d.t = "byte"
               \/ d.k \in {"struct", "union"} /\ \E x \in 1..Len(d.m) : d.m[x].t = "byte" /\ ~Array(d.m[x])

(* fail: the compilation fails.  ok: it gives the definitions defs.  open: *)
(* not documented (names left without a definition, structs without        *)
(* members, rules whose moment is not documented).                         *)
Outcome(defs, rules) ==
    LET res == [x \in 1..Len(defs) |-> ApplyAll(defs[x], rules)]
        all == [x \in 1..Len(defs) |-> res[x].d]
    IN IF \E x \in 1..Len(defs) : ~res[x].ok THEN [r |-> "fail", defs |-> <<>>]
       ELSE IF ~TypesKnown(all) \/ \E x \in 1..Len(all) : LoneByte(all[x]) \/ (all[x].k # "typedef" /\ all[x].m = <<>>)
       THEN [r |-> "open", defs |-> <<>>]
       ELSE IF ~LegalSet(all) THEN [r |-> "fail", defs |-> <<>>]
       ELSE IF \E x \in 1..Len(defs) : res[x].open THEN [r |-> "open", defs |-> <<>>]
       ELSE [r |-> "ok", defs |-> Arranged(all)]
=============================================================================
