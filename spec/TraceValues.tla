---------------------------- MODULE TraceValues ----------------------------
(***************************************************************************)
(* Records of equality, hashing, keys and printing of the real library,    *)
(* judged by Values.tla.                                                   *)
(***************************************************************************)
EXTENDS Values, TLC

P == INSTANCE Parse
Pow2 == [j \in 1..14 |-> 2 ^ (j - 1)]
SetOf(m) == {EffectSeq[j] : j \in {x \in 1..13 : (m \div Pow2[x]) % 2 = 1}}

PairsOk(r) == /\ EqualRight(r.v, r.eq, r.ne)
              /\ r.c = r.v
              /\ r.hashed => \A k \in 1..Len(r.h) : HashRight(r.v, r.h[k])

RECURSIVE KeysOk(_, _, _)
KeysOk(s, evs, k) ==
    IF k > Len(evs) THEN TRUE
    ELSE LET x == KeyOp(s, evs[k].m, evs[k].a) IN
         /\ evs[k].r = x[1]
         /\ evs[k].n = <<Cardinality(x[2]), Cardinality(x[2])>>
         /\ KeysOk(x[2], evs, k + 1)

\* what is printed plainly: for styles see Session.tla (C01-C03)
Plainly(r) ==
    CASE r.what \in {"apply", "clear"} -> TRUE
      [] r.what = "clear_all" -> r.ref = <<27, 91, 48, 109>>
      [] OTHER -> r.ref = ColorWriter(r.of, r.what)
PrintOk(r) == /\ Plainly(r)
              /\ r.errors = 0
              /\ \A k \in 1..Len(r.outs) : r.outs[k] = r.ref
              /\ \A k \in 1..Len(r.faults) : PrintOutcome(r.ref, r.faults[k])

DebugOk(r) == \A k \in 1..Len(r.r) :
    LET n == NamesOf(SetOf(r.from + k - 1))
        c == CompactSet(n)
        p == PrettySet(n)
    IN r.r[k] = <<c, p, c, p>>
LeftOk(r) == LET s == IterSkip(SetOf(r.start), r.steps) n == NamesOf(s) IN
    /\ r.left = Listed(s)
    /\ r.r = <<CompactSet(n), PrettySet(n)>>
MessageOk(r) == \A w \in (IF r.of = "mode" THEN P!ModeWords ELSE P!StreamWords) : Mentions(r.b, w[1])

Ok(r) == CASE r.k = "pairs" -> PairsOk(r)
           [] r.k = "keys" -> KeysOk({}, r.evs, 1)
           [] r.k = "print" -> PrintOk(r)
           [] r.k = "debug" -> DebugOk(r)
           [] r.k = "left" -> LeftOk(r)
           [] r.k = "message" -> MessageOk(r)
Right == i <= Len(Recs) => Ok(Recs[i])
=============================================================================
