----------------------------- MODULE TracePieces -----------------------------
(***************************************************************************)
(* Validates recorded histories of escapes put together by hand from the   *)
(* real library's pieces.  An event: [ps: pieces, b: bytes sent]           *)
(***************************************************************************)
EXTENDS PieceOps, Json, IOUtils

VARIABLES tr, i, term
vars == <<tr, i, term>>

Traces == JsonDeserialize(IOEnv.TRACES)
Style(x) == [fg |-> x.fg, bg |-> x.bg, ul |-> x.ul, eff |-> {x.eff[k] : k \in 1..Len(x.eff)}]
Piece(x) == IF x[1] \in {"open", "close"} THEN <<x[1], Style(x[2])>> ELSE x
PiecesOf(e) == [k \in 1..Len(e.ps) |-> Piece(e.ps[k])]

Init == tr \in 1..Len(Traces) /\ i = 1 /\ term = DefaultAttrs
Step ==
    /\ i <= Len(Traces[tr])
    \* (quantified rather than defined: TLC evaluates the bytes once)
    /\ \E e \in {Traces[tr][i]} : \E t \in {Bytes(TermStart(term), e.b)} :
          /\ Clean(t)
          /\ t.sgr.a = Meanings(PiecesOf(e), term)
          /\ (\A k \in 1..Len(e.ps) : e.ps[k][1] # "reset") => NoReset(t)
          /\ term' = t.sgr.a
    /\ i' = i + 1 /\ tr' = tr
Done == i > Len(Traces[tr]) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
