----------------------------- MODULE TraceEngine -----------------------------
(***************************************************************************)
(* Validates the drivers' table-driven terminal interpreter (eng.rs)       *)
(* against Sgr.tla: what it says about a byte string must be what the      *)
(* specification's terminal does, from every prior state that matters.     *)
(***************************************************************************)
EXTENDS Sgr, Json, IOUtils

Recs == JsonDeserialize(IOEnv.TRACES)

VARIABLE i
Init == i \in 1..16
Next == i + 16 <= Len(Recs) /\ i' = i + 16

Set(x) == {x[k] : k \in 1..Len(x)}
Starts == {DefaultAttrs,
           [fg |-> Idx(3), bg |-> Pal(17), ul |-> Rgb(1, 2, 3), on |-> Effects],
           [fg |-> Pal(3), bg |-> Idx(17), ul |-> Pal(5), on |-> {"Bold", "Underline", "SubScript"}]}
Agrees(r, a) ==
    LET t == Bytes(TermStart(a), r.b)
        bad == t.sgr.bad \/ t.lex # "ground"
        base == IF r.reset THEN DefaultAttrs ELSE a
        col(d, c) == IF d = <<"untouched">> THEN c ELSE d
    IN  /\ r.bad = bad
        /\ ~bad => /\ r.reset = t.sgr.reset
                   /\ r.text = Len(t.text)
                   /\ t.sgr.a = [fg |-> col(r.fg, base.fg), bg |-> col(r.bg, base.bg), ul |-> col(r.ul, base.ul),
                                 on |-> (base.on \cup Set(r.on)) \ Set(r.off)]
EngineAgrees == i <= Len(Recs) => \A a \in Starts : Agrees(Recs[i], a)
=============================================================================
