-------------------------------- MODULE FmtRecs -------------------------------
(***************************************************************************)
(* C13 on records of single formattings of the real library:               *)
(*   how = "probe": a value that notes trait and options it is called with *)
(*     calls: t the trait used, gt the trait the value was called through, *)
(*            on colored, ok the result, op/cl the style's sequences,      *)
(*            pre/post what was written around the value's own text        *)
(*     pairs: <<options given, options received>>                          *)
(*   how = "values": real values; bare text, text of the styled value      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils

Recs == JsonDeserialize(IOEnv.TRACES)

VARIABLE i
Init == i \in 1..16
Next == i + 16 <= Len(Recs) /\ i' = i + 16

Opening(r) == IF r.on THEN r.op ELSE ""
Closing(r) == IF r.on THEN r.cl ELSE ""
Call(c) == c.gt = c.t /\ c.ok /\ c.pre = Opening(c) /\ c.post = Closing(c)
Value(r) == r.got = Opening(r) \o r.bare \o Closing(r)

Good(r) == IF r.how = "probe"
           THEN (\A k \in 1..Len(r.calls) : Call(r.calls[k])) /\ (\A k \in 1..Len(r.pairs) : r.pairs[k][1] = r.pairs[k][2])
           ELSE \A k \in 1..Len(r.recs) : Value(r.recs[k])
SameOutput == i <= Len(Recs) => Good(Recs[i])
=============================================================================
