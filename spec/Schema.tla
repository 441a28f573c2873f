------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Schemas and their wire layout, as laid down in docs/encoding.rst and    *)
(* docs/schema.rst.                                                        *)
(*                                                                         *)
(* A schema is a sequence of definitions in dependency order.  Every       *)
(* definition is a record                                                  *)
(*   [k    |-> "enum" | "typedef" | "struct" | "union",                    *)
(*    name |-> STRING,                                                     *)
(*    t    |-> STRING        (typedef target, otherwise ""),               *)
(*    m    |-> sequence of members]                                        *)
(* and every member (struct field, union arm, enumerator) is a record      *)
(*   [name |-> STRING, c |-> character codes of the name,                  *)
(*    t    |-> type name, a |-> arity, n |-> array size, s |-> sizer name, *)
(*    v    |-> four bytes (discriminator or enumerator value)]             *)
(* where the arity of a struct field is one of                             *)
(*   plain  T x            opt     T* x          fix  T x[n]               *)
(*   dyn    T x<>          lim     T x<n>        greedy  T x<...>          *)
(*   ext    T x<@s>        xlim    T x of at most n, counted by s (isar)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Fixed == 0
Dynamic == 1
Unlimited == 2

Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(seq) == FoldLeft(Max2, 0, seq)
SumOf(seq) == FoldLeft(LAMBDA a, b: a + b, 0, seq)

Pad(off, al) == (al - (off % al)) % al

BuiltinWidth ==
    [ u8 |-> 1, i8 |-> 1, byte |-> 1, u16 |-> 2, i16 |-> 2,
      u32 |-> 4, i32 |-> 4, float |-> 4, u64 |-> 8, i64 |-> 8, double |-> 8 ]
Builtins == DOMAIN BuiltinWidth
Integral == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
Signed == {"i8", "i16", "i32", "i64"}

FlagWidth == 4         (* optional flag: a 4-byte boolean                  *)
DiscWidth == 4         (* union discriminator                              *)
EnumWidth == 4

---------------------------------------------------------------------------
(* Wire members: what a struct's fields become on the wire.  Implicitly    *)
(* sized arrays bring their own u32 counter; a field named by an           *)
(* externally sized array turns into a counter.                            *)
(*   src  index of the surface field (0: implicit counter)                 *)
(*   cnt  indices of the fields counted by this member (<<>>: not a sizer) *)

SizedBy(ms, i) ==
    SelectSeq([j \in 1..Len(ms) |-> j],
              LAMBDA j: ms[j].a \in {"ext", "xlim"} /\ ms[j].s = ms[i].name)

ImplicitSizer(i) == [src |-> 0, cnt |-> <<i>>, t |-> "u32", a |-> "size", n |-> 0]

WireOf(ms, i) ==
    LET m == ms[i]
        self(a) == [src |-> i, cnt |-> <<>>, t |-> m.t, a |-> a, n |-> m.n]
    IN CASE m.a = "dyn"    -> << ImplicitSizer(i), self("dyn") >>
         [] m.a = "lim"    -> << ImplicitSizer(i), self("lim") >>
         [] m.a = "ext"    -> << self("dyn") >>
         [] m.a = "xlim"   -> << self("lim") >>
         [] m.a = "plain"  -> LET c == SizedBy(ms, i) IN
                              << [src |-> i, cnt |-> c, t |-> m.t,
                                  a |-> IF c = <<>> THEN "plain" ELSE "size", n |-> 0] >>
         [] OTHER          -> << self(m.a) >>

WireMembers(ms) == FoldLeft(LAMBDA acc, i: acc \o WireOf(ms, i), <<>>,
                            [i \in 1..Len(ms) |-> i])

---------------------------------------------------------------------------
(* Layout of one wire member given the layouts L of earlier types.         *)

MemberAlign(L, w) ==
    IF w.a = "opt" THEN Max2(FlagWidth, L[w.t].al) ELSE L[w.t].al

MemberSize(L, w) ==
    CASE w.a \in {"plain", "size"} -> L[w.t].sz
      [] w.a = "opt"               -> MemberAlign(L, w) + L[w.t].sz
      [] w.a \in {"fix", "lim"}    -> w.n * L[w.t].sz
      [] OTHER                     -> 0

MemberStiff(L, w) ==
    CASE w.a = "plain"  -> L[w.t].st
      [] w.a = "dyn"    -> Dynamic
      [] w.a = "greedy" -> Unlimited
      [] OTHER          -> Fixed

(* Blocks: a block ends with a dynamic field.  blk numbers blocks from 1.  *)
WithBlocks(L, ws) ==
    LET step(acc, w) ==
          LET st == MemberStiff(L, w)
              r  == [src |-> w.src, cnt |-> w.cnt, t |-> w.t, a |-> w.a, n |-> w.n,
                     al |-> MemberAlign(L, w), sz |-> MemberSize(L, w),
                     st |-> st, blk |-> acc.b]
          IN [b |-> acc.b + (IF st = Dynamic THEN 1 ELSE 0), out |-> Append(acc.out, r)]
    IN FoldLeft(step, [b |-> 1, out |-> <<>>], ws).out

BlockAlign(ws, b) == MaxOf([i \in 1..Len(ws) |-> IF ws[i].blk = b THEN ws[i].al ELSE 1])

(* The first field of every block is aligned to the block's alignment.     *)
EffAlign(ws, i) ==
    IF i = 1 \/ ws[i].blk # ws[i-1].blk THEN BlockAlign(ws, ws[i].blk) ELSE ws[i].al

StructWire(L, ms) ==
    LET ws == WithBlocks(L, WireMembers(ms))
    IN [i \in 1..Len(ws) |-> [src |-> ws[i].src, cnt |-> ws[i].cnt, t |-> ws[i].t,
                              a |-> ws[i].a, n |-> ws[i].n, al |-> ws[i].al,
                              sz |-> ws[i].sz, st |-> ws[i].st, blk |-> ws[i].blk,
                              ea |-> EffAlign(ws, i)]]

StructAlign(ws) == Max2(1, MaxOf([i \in 1..Len(ws) |-> ws[i].al]))
StructStiff(ws) == MaxOf([i \in 1..Len(ws) |-> ws[i].st])

(* Size with every dynamic part empty; for a fixed struct, its wire size.  *)
StructSize(ws) ==
    LET end == FoldLeft(LAMBDA off, w: off + Pad(off, w.ea) + w.sz, 0, ws)
    IN end + Pad(end, StructAlign(ws))

(* Offsets of wire members relative to the start of their block, where the *)
(* block's start is aligned (block 1 starts the struct).                   *)
BlockOffsets(ws) ==
    LET step(acc, i) ==
          LET base == IF i > 1 /\ ws[i].blk # ws[i-1].blk THEN 0 ELSE acc.off
              o    == base + Pad(base, ws[i].ea)
          IN [off |-> o + ws[i].sz, out |-> Append(acc.out, o)]
    IN FoldLeft(step, [off |-> 0, out |-> <<>>], [i \in 1..Len(ws) |-> i]).out

UnionAlign(L, arms) ==
    Max2(DiscWidth, MaxOf([i \in 1..Len(arms) |-> L[arms[i].t].al]))
UnionSize(L, arms) ==
    LET al == UnionAlign(L, arms)
        n  == al + MaxOf([i \in 1..Len(arms) |-> L[arms[i].t].sz])
    IN n + Pad(n, al)

---------------------------------------------------------------------------
(* An analysed schema: definitions, layouts and wire members by name, and  *)
(* the resolved kind of every type (typedefs looked through).              *)

BuiltinLayout == [b \in Builtins |-> [sz |-> BuiltinWidth[b], al |-> BuiltinWidth[b], st |-> Fixed]]
BuiltinKind == [b \in Builtins |-> [k |-> "scalar", r |-> b]]

EmptySchema == [D |-> [x \in {} |-> x], L |-> BuiltinLayout, W |-> [x \in {} |-> x],
                K |-> BuiltinKind]

AddDef(X, d) ==
    LET ws == IF d.k = "struct" THEN StructWire(X.L, d.m) ELSE <<>>
        lay == CASE d.k = "enum"    -> [sz |-> EnumWidth, al |-> EnumWidth, st |-> Fixed]
                 [] d.k = "typedef" -> X.L[d.t]
                 [] d.k = "struct"  -> [sz |-> StructSize(ws), al |-> StructAlign(ws), st |-> StructStiff(ws)]
                 [] d.k = "union"   -> [sz |-> UnionSize(X.L, d.m), al |-> UnionAlign(X.L, d.m), st |-> Fixed]
        kind == IF d.k = "typedef" THEN X.K[d.t] ELSE [k |-> d.k, r |-> d.name]
    IN [D |-> X.D @@ (d.name :> d), L |-> X.L @@ (d.name :> lay),
        W |-> X.W @@ (d.name :> ws), K |-> X.K @@ (d.name :> kind)]

Analyse(defs) == FoldLeft(AddDef, EmptySchema, defs)

(* Offsets of everything addressable in the raw C++ view of type r: the    *)
(* flag and the value of an optional, discriminator and arms of a union.   *)
RawOffsets(X, r) ==
    IF X.D[r].k = "union"
    THEN <<0>> \o [i \in 1..Len(X.D[r].m) |-> X.L[r].al]
    ELSE LET ws == X.W[r]
             bo == BlockOffsets(ws)
         IN FoldLeft(LAMBDA a, i: a \o (IF ws[i].a = "opt" THEN <<bo[i], bo[i] + ws[i].al>> ELSE <<bo[i]>>),
                     <<>>, [i \in 1..Len(ws) |-> i])

IsComposite(X, t) == X.K[t].k \in {"struct", "union"}
=============================================================================
