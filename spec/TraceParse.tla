----------------------------- MODULE TraceParse -----------------------------
(***************************************************************************)
(* Recorded calls of the real parsers: [mc: machine, s: bytes, r: result,  *)
(* e: what the driver's table interpreter said].                           *)
(***************************************************************************)
EXTENDS Parse, Json, IOUtils
Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i
Init == i \in 1..16
Next == i + 16 <= Len(Recs) /\ i' = i + 16
On(P) == i <= Len(Recs) => P
InterpreterRight == On(Recs[i].e = Parse(Recs[i].mc, Recs[i].s))
\* al: how often the library allocated (C21)
Frugal == On(Recs[i].al = 0)
LibraryRight == On(Recs[i].r = Parse(Recs[i].mc, Recs[i].s))
=============================================================================
