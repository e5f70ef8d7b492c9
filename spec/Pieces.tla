------------------------------- MODULE Pieces -------------------------------
(***************************************************************************)
(* Escapes put together by hand (C25).  Besides whole styles, the library  *)
(* hands out pieces: the codes of one effect (apply_args, clear_args) and  *)
(* of one color in one layer (..._args), and the same as whole escapes.    *)
(* Pieces of codes are joined with `;` into one escape; escapes follow one *)
(* another in any order, mixed with opened and closed styles.              *)
(*                                                                         *)
(* Design model: a program emits pieces, alone or joined, and a terminal   *)
(* consumes them byte by byte.                                             *)
(***************************************************************************)
EXTENDS PieceOps

CONSTANTS PieceSet,   \* the pieces used
          MaxJoined,  \* codes joined in one escape
          MaxOps      \* escapes

VARIABLES term, out, joined, want, before, touched, ops
vars == <<term, out, joined, want, before, touched, ops>>

-----------------------------------------------------------------------------
Init == /\ term = TermStart(DefaultAttrs) /\ out = <<>> /\ joined = <<>>
        /\ want = DefaultAttrs /\ before = DefaultAttrs /\ touched = {} /\ ops = 0

\* the program joins another piece to the escape it is about to emit
Join(p) == /\ out = <<>> /\ ops < MaxOps /\ Len(joined) < MaxJoined
           /\ HasArgs(p) \/ joined = <<>>
           /\ \A k \in 1..Len(joined) : HasArgs(joined[k])
           /\ joined' = Append(joined, p)
           /\ UNCHANGED <<term, out, want, before, touched, ops>>
Emit == /\ out = <<>> /\ joined # <<>>
        /\ out' = EscapeBytes(joined)
        /\ want' = Meanings(joined, term.sgr.a)
        /\ before' = term.sgr.a
        /\ touched' = UNION {Touches(joined[k]) : k \in 1..Len(joined)}
        /\ joined' = <<>> /\ ops' = ops + 1
        /\ UNCHANGED term
Consume == /\ out # <<>>
           /\ term' = Byte(term, Head(out)) /\ out' = Tail(out)
           /\ UNCHANGED <<joined, want, before, touched, ops>>
Next == (\E p \in PieceSet : Join(p)) \/ Emit \/ Consume
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Settled == out = <<>>
WellFormed == ~term.sgr.bad /\ term.text = <<>> /\ (Settled => term.lex = "ground")
\* the terminal ends up as the pieces say, and nothing else changes
Exact == Settled => term.sgr.a = want
OnlyTouched ==
    /\ \A l \in {"fg", "bg", "ul"} : l \notin touched => term.sgr.a[l] = before[l]
    /\ (term.sgr.a.on \ touched) = (before.on \ touched)
\* switching an effect off undoes switching it on, and leaves no other effect on
\* than those of other groups
OffUndoesOn == \A e \in Effects : \A a \in {DefaultAttrs, [DefaultAttrs EXCEPT !.on = Effects]} :
    LET x == Meanings(<< <<"on", e>>, <<"off", e>> >>, a) IN
    /\ e \notin x.on
    /\ x.on = a.on \ GroupOf[EffectOff[e]]
=============================================================================
