------------------------------ MODULE Message -------------------------------
(***************************************************************************)
(* The Python message API as operations on plain values: what every call   *)
(* does to a message, or that it is refused.  A refused operation changes  *)
(* nothing.                                                                *)
(*                                                                         *)
(* A message is a value of Codec.  A place inside a message is a path:     *)
(* steps <<k, j>> through the k-th field of a struct (the k-th arm of a    *)
(* union); j is the element of an array, 1-based, and 0 elsewhere.         *)
(*                                                                         *)
(* Python objects passed in are records                                    *)
(*   k  "int" | "bool" | "float" | "str" | "bytes" | "none" | "other"      *)
(*   b  int, bool: two's complement, least significant byte first;         *)
(*      bytes: the bytes                                                   *)
(*   d, s  numbers: IEEE double / single bytes, <<>> when out of range     *)
(*   c  str: character codes                                               *)
(***************************************************************************)
EXTENDS Codec

Yes(v) == [ok |-> TRUE, v |-> v]
No(v) == [ok |-> FALSE, v |-> v]

---------------------------------------------------------------------------
(* Fresh messages.                                                         *)
RECURSIVE Default(_, _)
DefaultField(X, ms, k) ==
    LET m == ms[k]
    IN CASE m.a = "plain" -> IF SizedBy(ms, k) # <<>> THEN <<>> ELSE Default(X, m.t)
         [] m.a = "fix" -> [j \in 1..m.n |-> IF m.t = "byte" THEN 0 ELSE Default(X, m.t)]
         [] OTHER -> <<>>
Default(X, t) ==
    LET kind == X.K[t]
    IN CASE kind.k = "scalar" -> Zeros(X.L[t].sz)
         [] kind.k = "enum" -> X.D[kind.r].m[1].v
         [] kind.k = "union" -> <<1, Default(X, X.D[kind.r].m[1].t)>>
         [] kind.k = "struct" -> LET ms == X.D[kind.r].m IN [k \in 1..Len(ms) |-> DefaultField(X, ms, k)]

(* How many elements a counter can count; -1: more than anyone tries.      *)
MaxCount(r) == CASE r = "u8" -> 255 [] r = "i8" -> 127 [] r = "u16" -> 65535 [] r = "i16" -> 32767 [] OTHER -> -1

(* Longest allowed length of an array or bytes field; -1: no limit.        *)
Limit(X, ms, k) ==
    LET m == ms[k]
    IN CASE m.a \in {"fix", "lim"} -> m.n
         [] m.a = "xlim" -> LET z == SelectSeq(ms, LAMBDA o: o.name = m.s)[1]
                                c == MaxCount(X.K[z.t].r)
                            IN IF c = -1 \/ c > m.n THEN m.n ELSE c
         [] m.a = "ext" -> LET z == SelectSeq(ms, LAMBDA o: o.name = m.s)[1] IN MaxCount(X.K[z.t].r)
         [] OTHER -> -1
Fits(X, ms, k, n) == Limit(X, ms, k) = -1 \/ n <= Limit(X, ms, k)

(* Every value a message may ever hold.                                    *)
RECURSIVE Valid(_, _, _)
ValidField(X, ms, k, x) ==
    LET m == ms[k]
    IN CASE m.a = "plain" -> IF SizedBy(ms, k) # <<>> THEN x = <<>> ELSE Valid(X, m.t, x)
         [] m.a = "opt" -> x = <<>> \/ (Len(x) = 1 /\ Valid(X, m.t, x[1]))
         [] OTHER -> /\ IF m.a = "fix" THEN Len(x) = m.n ELSE Fits(X, ms, k, Len(x))
                     /\ \A j \in 1..Len(x) : IF m.t = "byte" THEN x[j] \in 0..255 ELSE Valid(X, m.t, x[j])
Valid(X, t, v) ==
    LET kind == X.K[t]
    IN CASE kind.k = "scalar" -> Len(v) = X.L[t].sz /\ \A j \in 1..Len(v) : v[j] \in 0..255
         [] kind.k = "enum" -> \E j \in 1..Len(X.D[kind.r].m) : X.D[kind.r].m[j].v = v
         [] kind.k = "union" -> v[1] \in 1..Len(X.D[kind.r].m) /\ Valid(X, X.D[kind.r].m[v[1]].t, v[2])
         [] kind.k = "struct" -> LET ms == X.D[kind.r].m
                                 IN Len(v) = Len(ms) /\ \A k \in 1..Len(ms) : ValidField(X, ms, k, v[k])

---------------------------------------------------------------------------
(* Places.                                                                 *)
StepType(X, t, s) == X.D[X.K[t].r].m[s[1]].t
StepInto(X, t, v, s) ==
    IF X.K[t].k = "union" THEN v[2]
    ELSE LET m == X.D[X.K[t].r].m[s[1]]
         IN CASE m.a = "plain" -> v[s[1]]
              [] m.a = "opt" -> v[s[1]][1]
              [] OTHER -> v[s[1]][s[2]]
StepBack(X, t, v, s, x) ==
    IF X.K[t].k = "union" THEN <<v[1], x>>
    ELSE LET m == X.D[X.K[t].r].m[s[1]]
         IN CASE m.a = "plain" -> [v EXCEPT ![s[1]] = x]
              [] m.a = "opt" -> [v EXCEPT ![s[1]] = <<x>>]
              [] OTHER -> [v EXCEPT ![s[1]] = [@ EXCEPT ![s[2]] = x]]
StepExists(X, t, v, s) ==
    IF X.K[t].k = "union" THEN v[1] = s[1]
    ELSE IF X.K[t].k # "struct" THEN FALSE
    ELSE LET m == X.D[X.K[t].r].m[s[1]]
         IN CASE m.a = "plain" -> SizedBy(X.D[X.K[t].r].m, s[1]) = <<>>
              [] m.a = "opt" -> v[s[1]] # <<>>
              [] OTHER -> m.t # "byte" /\ s[2] \in 1..Len(v[s[1]])

RECURSIVE TypeAt(_, _, _)
TypeAt(X, t, p) == IF p = <<>> THEN t ELSE TypeAt(X, StepType(X, t, p[1]), Tail(p))
RECURSIVE Exists(_, _, _, _)
Exists(X, t, v, p) == \/ p = <<>>
                      \/ /\ StepExists(X, t, v, p[1])
                         /\ Exists(X, StepType(X, t, p[1]), StepInto(X, t, v, p[1]), Tail(p))
RECURSIVE Get(_, _, _, _)
Get(X, t, v, p) == IF p = <<>> THEN v ELSE Get(X, StepType(X, t, p[1]), StepInto(X, t, v, p[1]), Tail(p))
RECURSIVE Put(_, _, _, _, _)
Put(X, t, v, p, x) ==
    IF p = <<>> THEN x
    ELSE StepBack(X, t, v, p[1], Put(X, StepType(X, t, p[1]), StepInto(X, t, v, p[1]), Tail(p), x))

---------------------------------------------------------------------------
(* What a field makes of a Python object.                                  *)
FitsInt(b, w, signed) ==
    LET top == Len(b)
        ext == IF signed /\ b[w] >= 128 THEN 255 ELSE 0
    IN \A j \in (w + 1)..top : b[j] = ext
IntLike(a) == a.k \in {"int", "bool"}

AdoptInt(a, w, signed) == IF IntLike(a) /\ FitsInt(a.b, w, signed) THEN Yes(SubSeq(a.b, 1, w)) ELSE No(<<>>)
AdoptFloat(a, w) ==
    IF ~(IntLike(a) \/ a.k = "float") THEN No(<<>>)
    ELSE LET b == IF w = 4 THEN a.s ELSE a.d IN IF b = <<>> THEN No(<<>>) ELSE Yes(b)
AdoptEnum(ms, a) ==
    LET named == SelectSeq(ms, LAMBDA m: a.k = "str" /\ m.c = a.c)
        numbered == SelectSeq(ms, LAMBDA m: IntLike(a) /\ FitsInt(a.b, 4, FALSE) /\ m.v = SubSeq(a.b, 1, 4))
    IN IF named # <<>> THEN Yes(named[1].v) ELSE IF numbered # <<>> THEN Yes(numbered[1].v) ELSE No(<<>>)

Adopt(X, t, a) ==
    LET kind == X.K[t]
    IN CASE kind.k = "enum" -> AdoptEnum(X.D[kind.r].m, a)
         [] kind.k = "scalar" /\ kind.r \in {"float", "double"} -> AdoptFloat(a, X.L[t].sz)
         [] kind.k = "scalar" -> AdoptInt(a, X.L[t].sz, kind.r \in Signed)
         [] OTHER -> No(<<>>)

AdoptBytes(X, ms, k, a) ==
    IF a.k # "bytes" \/ ~Fits(X, ms, k, Len(a.b)) THEN No(<<>>)
    ELSE Yes(IF ms[k].a = "fix" THEN a.b \o Zeros(ms[k].n - Len(a.b)) ELSE a.b)

AdoptAll(X, t, l) ==
    LET all == [j \in 1..Len(l) |-> Adopt(X, t, l[j])]
    IN IF \A j \in 1..Len(l) : all[j].ok THEN Yes([j \in 1..Len(l) |-> all[j].v]) ELSE No(<<>>)

---------------------------------------------------------------------------
(* Python lists.  Indices and slice bounds are 0-based and may be          *)
(* negative; None is the sequence <<>>, a number n is <<n>>.               *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Index(x, n) == IF x < 0 THEN x + n ELSE x
InList(x, n) == Index(x, n) >= 0 /\ Index(x, n) < n

(* positions (0-based) a slice selects, in slice order                     *)
SliceFrom(sl, n, step) ==
    IF step > 0 THEN (IF sl[1] = <<>> THEN 0 ELSE Clamp(Index(sl[1][1], n), 0, n))
    ELSE IF sl[1] = <<>> THEN n - 1 ELSE Clamp(Index(sl[1][1], n), -1, n - 1)
SliceTo(sl, n, step) ==
    IF step > 0 THEN (IF sl[2] = <<>> THEN n ELSE Clamp(Index(sl[2][1], n), 0, n))
    ELSE IF sl[2] = <<>> THEN -1 ELSE Clamp(Index(sl[2][1], n), -1, n - 1)
SliceStep(sl) == IF sl[3] = <<>> THEN 1 ELSE sl[3][1]
SlicePositions(sl, n) ==
    LET step == SliceStep(sl)
        a == SliceFrom(sl, n, step)
        z == SliceTo(sl, n, step)
        cnt == IF step > 0 THEN (IF z > a THEN (z - a + step - 1) \div step ELSE 0)
               ELSE (IF a > z THEN (a - z + (0 - step) - 1) \div (0 - step) ELSE 0)
    IN [j \in 1..cnt |-> a + (j - 1) * step]

Cut(l, a, z, mid) == SubSeq(l, 1, a) \o mid \o SubSeq(l, z + 1, Len(l))

(* l[slice] = new, as Python lists do it                                   *)
ListAssign(l, sl, new) ==
    LET n == Len(l)
        step == SliceStep(sl)
        ps == SlicePositions(sl, n)
    IN IF step = 0 THEN No(l)
       ELSE IF step = 1
       THEN LET a == SliceFrom(sl, n, 1)
                z == SliceTo(sl, n, 1)
            IN Yes(Cut(l, a, IF z < a THEN a ELSE z, new))
       ELSE IF Len(ps) # Len(new) THEN No(l)
       ELSE Yes(FoldLeft(LAMBDA acc, j: [acc EXCEPT ![ps[j] + 1] = new[j]], l, [j \in 1..Len(ps) |-> j]))

ListDelete(l, sl) ==
    IF SliceStep(sl) = 0 THEN No(l)
    ELSE LET gone == {SlicePositions(sl, Len(l))[j] : j \in 1..Len(SlicePositions(sl, Len(l)))}
             keep == SelectSeq([j \in 1..Len(l) |-> j], LAMBDA j: (j - 1) \notin gone)
         IN Yes([j \in 1..Len(keep) |-> l[keep[j]]])

(* Order of integers held as little-endian bytes.                          *)
Less(a, b, signed) ==
    LET w == Len(a)
        key(x, j) == IF j = w /\ signed THEN (x[j] + 128) % 256 ELSE x[j]
    IN FoldLeft(LAMBDA acc, j: IF key(a, j) < key(b, j) THEN TRUE ELSE IF key(a, j) > key(b, j) THEN FALSE ELSE acc,
                FALSE, [j \in 1..w |-> j])

---------------------------------------------------------------------------
(* Operations on field k of a struct value v.  e is the operation record:  *)
(*   op, k, a (object), l (objects), x (index), sl (slice), kw (fields of  *)
(*   a new element), src (values copied in; resolved by the caller)        *)
SetField(X, ms, v, k, a) ==
    LET m == ms[k]
        put(r) == IF r.ok THEN Yes([v EXCEPT ![k] = r.v]) ELSE No(v)
    IN CASE SizedBy(ms, k) # <<>> -> No(v)
         [] m.t = "byte" -> put(AdoptBytes(X, ms, k, a))
         [] m.a = "plain" -> put(Adopt(X, m.t, a))
         [] m.a = "opt" ->
              IF a.k = "none" THEN Yes([v EXCEPT ![k] = <<>>])
              ELSE IF IsComposite(X, m.t)
              THEN IF a.k = "bool" /\ a.b[1] = 1 THEN Yes([v EXCEPT ![k] = <<Default(X, m.t)>>]) ELSE No(v)
              ELSE LET r == Adopt(X, m.t, a) IN IF r.ok THEN Yes([v EXCEPT ![k] = <<r.v>>]) ELSE No(v)
         [] OTHER -> No(v)

(* Calls which only look at an array, and what they tell.                  *)
Reads == {"geti", "gets", "len", "eq"}
Readable(l, e) == CASE e.op = "geti" -> InList(e.x, Len(l)) [] e.op = "gets" -> SliceStep(e.sl) # 0 [] OTHER -> TRUE
Told(X, ms, v, e) ==
    LET m == ms[e.k]
        l == v[e.k]
        all == AdoptAll(X, m.t, e.l)
        picked == CASE e.op = "geti" -> <<Index(e.x, Len(l))>> [] e.op = "gets" -> SlicePositions(e.sl, Len(l)) [] OTHER -> <<>>
    IN CASE e.op = "len" -> <<Len(l)>>
         [] e.op = "eq" -> <<IF all.ok /\ all.v = l THEN 1 ELSE 0>>
         [] OTHER -> Join([j \in 1..Len(picked) |-> Flat(X, m.t, l[picked[j] + 1])])

ScalarArrayOp(X, ms, v, e) ==
    LET k == e.k
        m == ms[k]
        l == v[k]
        n == Len(l)
        one == Adopt(X, m.t, e.a)
        all == AdoptAll(X, m.t, e.l)
        becomes(x) == Yes([v EXCEPT ![k] = x])
        bounded(x) == IF (m.a = "fix" /\ Len(x) = m.n) \/ (m.a # "fix" /\ Fits(X, ms, k, Len(x))) THEN becomes(x) ELSE No(v)
        hits == SelectSeq([j \in 1..n |-> j], LAMBDA j: one.ok /\ l[j] = one.v)
    IN CASE e.op = "append" -> IF one.ok THEN bounded(Append(l, one.v)) ELSE No(v)
         [] e.op = "insert" -> IF one.ok THEN LET p == Clamp(Index(e.x, n), 0, n) IN bounded(Cut(l, p, p, <<one.v>>)) ELSE No(v)
         [] e.op = "extend" -> IF all.ok THEN bounded(l \o all.v) ELSE No(v)
         [] e.op = "seti" -> IF one.ok /\ InList(e.x, n) THEN becomes([l EXCEPT ![Index(e.x, n) + 1] = one.v]) ELSE No(v)
         [] e.op = "sets" -> IF all.ok THEN LET r == ListAssign(l, e.sl, all.v) IN IF r.ok THEN bounded(r.v) ELSE No(v) ELSE No(v)
         [] e.op = "deli" -> IF InList(e.x, n) THEN becomes(Cut(l, Index(e.x, n), Index(e.x, n) + 1, <<>>)) ELSE No(v)
         [] e.op = "dels" -> LET r == ListDelete(l, e.sl) IN IF r.ok THEN becomes(r.v) ELSE No(v)
         [] e.op = "remove" -> IF IntLike(e.a) /\ hits # <<>> THEN becomes(Cut(l, hits[1] - 1, hits[1], <<>>)) ELSE No(v)
         [] e.op = "sort" -> becomes(SortSeq(l, LAMBDA a, b: Less(a, b, X.K[m.t].r \in Signed)))
         [] e.op = "selfextend" -> bounded(l \o l)
         [] e.op \in Reads -> IF Readable(l, e) THEN Yes(v) ELSE No(v)
         [] OTHER -> No(v)

(* A new element with some of its fields given.                            *)
Furnish(X, t, kw) ==
    LET ms == X.D[X.K[t].r].m
        step(acc, w) ==
          IF ~acc.ok THEN acc
          ELSE IF X.K[t].k = "union" THEN No(acc.v)
          ELSE IF ms[w.k].a \in {"fix", "lim", "xlim", "dyn", "ext", "greedy"} /\ ms[w.k].t # "byte"
          THEN ScalarArrayOp(X, ms, acc.v, [op |-> "sets", k |-> w.k, a |-> w.a, l |-> w.l, x |-> 0, sl |-> <<<<>>, <<>>, <<>>>>])
          ELSE SetField(X, ms, acc.v, w.k, w.a)
    IN FoldLeft(step, Yes(Default(X, t)), kw)

CompositeArrayOp(X, ms, v, e) ==
    LET k == e.k
        m == ms[k]
        l == v[k]
        n == Len(l)
        becomes(x) == Yes([v EXCEPT ![k] = x])
        bounded(x) == IF Fits(X, ms, k, Len(x)) THEN becomes(x) ELSE No(v)
        fresh == Furnish(X, m.t, e.kw)
    IN CASE e.op = "add" -> IF fresh.ok THEN bounded(Append(l, fresh.v)) ELSE No(v)
         [] e.op = "extendc" -> IF e.src.ok THEN bounded(l \o e.src.v) ELSE No(v)
         [] e.op = "selfextend" -> bounded(l \o l)
         [] e.op = "deli" -> IF InList(e.x, n) THEN becomes(Cut(l, Index(e.x, n), Index(e.x, n) + 1, <<>>)) ELSE No(v)
         [] e.op = "dels" -> LET r == ListDelete(l, e.sl) IN IF r.ok THEN becomes(r.v) ELSE No(v)
         [] e.op \in Reads -> IF Readable(l, e) THEN Yes(v) ELSE No(v)
         [] OTHER -> No(v)

UnionOp(X, t, v, e) ==
    LET arms == X.D[X.K[t].r].m
        named == SelectSeq([j \in 1..Len(arms) |-> j],
                           LAMBDA j: \/ e.a.k = "str" /\ arms[j].c = e.a.c
                                     \/ IntLike(e.a) /\ FitsInt(e.a.b, 4, FALSE) /\ arms[j].v = SubSeq(e.a.b, 1, 4))
    IN CASE e.op = "disc" -> IF named = <<>> THEN No(v)
                             ELSE IF named[1] = v[1] THEN Yes(v)
                             ELSE Yes(<<named[1], Default(X, arms[named[1]].t)>>)
         [] e.op = "set" -> IF v[1] # e.k THEN No(v)
                            ELSE LET r == Adopt(X, arms[e.k].t, e.a) IN IF r.ok THEN Yes(<<v[1], r.v>>) ELSE No(v)
         [] e.op = "read" -> IF v[1] = e.k THEN Yes(v) ELSE No(v)

(* The operation e on a composite v of type t (no path).                   *)
DoHere(X, t, v, e) ==
    IF X.K[t].k = "union" THEN UnionOp(X, t, v, e)
    ELSE LET ms == X.D[X.K[t].r].m
         IN CASE e.op = "set" -> SetField(X, ms, v, e.k, e.a)
              [] IsComposite(X, ms[e.k].t) -> CompositeArrayOp(X, ms, v, e)
              [] OTHER -> ScalarArrayOp(X, ms, v, e)

(* The operation at path e.p of message v of type t.                       *)
Do(X, t, v, e) ==
    LET at == TypeAt(X, t, e.p)
        r == DoHere(X, at, Get(X, t, v, e.p), e)
    IN IF r.ok THEN Yes(Put(X, t, v, e.p, r.v)) ELSE No(v)

(* Which exceptions may report a refusal, besides ProphyError.             *)
ListErrors(op) ==
    CASE op \in {"seti", "deli", "geti"} -> {"index"}
      [] op \in {"sets", "dels", "remove", "gets"} -> {"value"}
      [] op = "setsizer" -> {"attribute"}
      [] OTHER -> {}
=============================================================================
