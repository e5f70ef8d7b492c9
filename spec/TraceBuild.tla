----------------------------- MODULE TraceBuild -----------------------------
(***************************************************************************)
(* Recorded building operations of the real library, judged by Build.tla.  *)
(* Effect sets are recorded as masks (bit = declaration order).            *)
(***************************************************************************)
EXTENDS Build, Json, IOUtils, TLC

Pow2 == [i \in 1..14 |-> 2 ^ (i - 1)]
SetOf == [m \in 0..8191 |-> {EffectSeq[j] : j \in {i \in 1..13 : (m \div Pow2[i]) % 2 = 1}}]
MaskOf(s) == LET RECURSIVE Sum(_) Sum(x) == IF x = {} THEN 0 ELSE LET e == First(x) IN Pow2[EffectIndex[e] + 1] + Sum(x \ {e}) IN Sum(s)

Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i
Init == i \in 1..16
Next == i + 16 <= Len(Recs) /\ i' = i + 16

InRange(m) == m \in 0..8191
Layer(l) == [fg |-> l.fg, bg |-> l.bg, ul |-> l.ul, eff |-> SetOf[l.eff], stream |-> l.stream]
IsLayer(l) == InRange(l.eff)
Layers(ls) == [k \in 1..Len(ls) |-> Layer(ls[k])]

StyleOk(r) == IsLayer(r.post) /\ Layer(r.post) = Method(Layer(r.pre), r.m, r.a)
ValueOk(r) ==
    LET a == IF r.m \in {"style_with", "into_style_with"} THEN Layer(r.a) ELSE r.a IN
    /\ r.same
    /\ \A k \in 1..Len(r.post) : IsLayer(r.post[k])
    /\ Layers(r.post) = OnValue(Layers(r.pre), r.w, r.m, a)

BulkOk(r) == \A m \in 0..8191 : InRange(r.r[m + 1]) /\ SetOf[r.r[m + 1]] = FlagsOp(SetOf[m], r.m, r.a)
QueryOk(r) == \A m \in 0..8191 : (r.r[m + 1] = 1) =
    CASE r.m = "is" -> r.a \in SetOf[m]
      [] r.m = "is_plain" -> SetOf[m] = {}
\* what consuming an iterator over each set gives (indices of effects, -1 for
\* none; numbers); every answer is asked for in several ways
ConsumeOk(r) == \A j \in 1..Len(r.r) :
    LET s == SetOf[r.from + j - 1]
        q == Listed(s)
        L == [k \in 1..Len(q) |-> EffectIndex[q[k]]]
        n == Len(L)
        x == r.r[j]
        All(vs, want) == \A v \in 1..Len(vs) : vs[v] = want
        Every(vs, F(_)) == \A v \in 1..Len(vs) : \A k \in 0..13 : vs[v][k + 1] = F(k)
        IndexOf(e) == IF \E k \in 1..n : L[k] = e THEN (CHOOSE k \in 1..n : L[k] = e) - 1 ELSE -1
    IN /\ All(x.last, IF n = 0 THEN -1 ELSE L[n])
       /\ All(x.count, n)
       /\ x.hint[1] <= n /\ n <= x.hint[2]
       /\ Every(x.nth, LAMBDA k : IF k < n THEN L[k + 1] ELSE -1)
       /\ Every(x.left, LAMBDA k : IF k < n THEN n - k ELSE 0)
       \* entry k asks for the k-th effect, entry 0 for nothing
       /\ Every(x.at, LAMBDA k : IndexOf(k - 1))
       /\ Every(x.any, LAMBDA k : IF IndexOf(k - 1) >= 0 THEN 1 ELSE 0)
\* a constructor: the argument is a sequence of effects
MakeOk(r) == InRange(r.r) /\ SetOf[r.r] = FlagsOp({}, r.m, r.a)
ListOk(r) == \A k \in 1..Len(r.r) : r.r[k] = Listed(SetOf[r.from + k - 1])
\* how many sets intersect this one, and the sum of their masks
IntersectOk(r) == \A k \in 1..Len(r.r) :
    LET s == SetOf[r.from + k - 1]
        n == 13 - Cardinality(s)
        other == 8191 - (r.from + k - 1)
    IN /\ r.r[k][1] = 8192 - 2 ^ n
       /\ r.r[k][2] = 8191 * 4096 - (IF n = 0 THEN 0 ELSE other * (2 ^ (n - 1)))

RECURSIVE IterOk(_, _, _)
IterOk(left, evs, k) ==
    IF k > Len(evs) THEN TRUE
    ELSE LET ev == evs[k] IN
    CASE ev.m = "next" -> LET x == IterNext(left) IN ev.r = x[2] /\ IterOk(x[1], evs, k + 1)
      [] ev.m = "nth" -> LET x == IterNth(left, ev.a) IN ev.r = x[2] /\ IterOk(x[1], evs, k + 1)
      [] ev.m = "size_hint" -> /\ ev.r[1] <= Cardinality(left) /\ (ev.r[2] = -1 \/ Cardinality(left) <= ev.r[2])
                               /\ IterOk(left, evs, k + 1)
      \* on a copy of the iterator
      [] ev.m \in {"collect", "fold", "for_each", "clone", "peekable", "chain"} -> ev.r = Listed(left) /\ IterOk(left, evs, k + 1)
      [] ev.m = "count" -> ev.r = <<Cardinality(left)>> /\ IterOk(left, evs, k + 1)
      [] ev.m = "last" -> /\ ev.r = (IF left = {} THEN <<>> ELSE <<Listed(left)[Cardinality(left)]>>)
                          /\ IterOk(left, evs, k + 1)
      [] ev.m = "find" -> LET hit == ev.a \in left IN
                            \* find by reference: skips up to and including the effect, or everything
                            /\ ev.r = (IF hit THEN <<ev.a>> ELSE <<>>)
                            /\ IterOk(IF hit THEN {e \in left : EffectIndex[e] > EffectIndex[ev.a]} ELSE {}, evs, k + 1)
      [] ev.m = "set" -> MaskOf(left) = ev.r[1] /\ IterOk(left, evs, k + 1)

RECURSIVE FlagsOk(_, _, _)
FlagsOk(s, evs, k) ==
    IF k > Len(evs) THEN TRUE
    ELSE LET ev == evs[k] t == FlagsOp(s, ev.m, ev.a) IN
         /\ ev.r = MaskOf(t) /\ ev.plain = (t = {}) /\ ev.l = Listed(t)
         /\ FlagsOk(t, evs, k + 1)

Ok(r) == CASE r.k = "style" -> StyleOk(r)
           [] r.k = "value" -> ValueOk(r)
           [] r.k = "bulk" -> BulkOk(r)
           [] r.k = "query" -> QueryOk(r)
           [] r.k = "consume" -> ConsumeOk(r)
           [] r.k = "make" -> MakeOk(r)
           [] r.k = "list" -> ListOk(r)
           [] r.k = "intersect" -> IntersectOk(r)
           [] r.k = "iterator" -> IterOk(SetOf[r.start], r.evs, 1)
           [] r.k = "flags" -> FlagsOk({}, r.evs, 1)
Right == i <= Len(Recs) => Ok(Recs[i])
\* al: how often the library allocated while doing it (C21)
Frugal == i <= Len(Recs) => Recs[i].al = 0
=============================================================================
