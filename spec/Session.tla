------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Design model: a program opens and closes styled spans on a terminal,    *)
(* byte by byte, and prints text inside them.  Checked by TLC for a small  *)
(* catalogue of styles (MCSession.cfg): the reference encoder realises     *)
(* Applied/Cleared exactly, spans never disturb attributes they do not     *)
(* own, and once every span is closed the terminal is back to default.     *)
(***************************************************************************)
EXTENDS Sgr

CONSTANTS Catalogue,   \* set of styles
          MaxDepth,    \* bound on nesting
          MaxOps       \* bound on operations

VARIABLES term,        \* the terminal
          spans,       \* open styles, innermost last
          out,         \* bytes not yet consumed by the terminal
          op,          \* the operation whose bytes are in out: <<kind, style>>
          before,      \* attributes when that operation started
          want,        \* attributes the terminal must have when out is consumed
          ops          \* operations started

vars == <<term, spans, out, op, before, want, ops>>

Init == /\ term = TermStart(DefaultAttrs)
        /\ spans = <<>> /\ out = <<>> /\ op = <<"idle">>
        /\ before = DefaultAttrs /\ want = DefaultAttrs /\ ops = 0

Begin(kind, st, bytes, target) ==
    /\ out = <<>> /\ ops < MaxOps
    /\ ops' = ops + 1
    /\ op' = <<kind, st>> /\ out' = bytes
    /\ before' = term.sgr.a
    /\ want' = target
    /\ UNCHANGED term

Open(st) == /\ Len(spans) < MaxDepth
            /\ Begin("open", st, OpenBytes(st), Applied(st, term.sgr.a))
            /\ spans' = Append(spans, st)

Close == /\ spans # <<>>
         /\ LET st == spans[Len(spans)] IN
              Begin("close", st, CloseBytes(st), Cleared(st, term.sgr.a))
         /\ spans' = SubSeq(spans, 1, Len(spans) - 1)

ClearAll == /\ Begin("clearall", PlainStyle, ClearAllBytes, DefaultAttrs)
            /\ UNCHANGED spans

Consume == /\ out # <<>>
           /\ term' = Byte(term, Head(out))
           /\ out' = Tail(out)
           /\ UNCHANGED <<spans, op, before, want, ops>>

Next == (\E st \in Catalogue : Open(st)) \/ Close \/ ClearAll \/ Consume
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Settled == out = <<>>

WellFormed == ~term.sgr.bad /\ term.text = <<>> /\ (Settled => term.lex = "ground")
Exact == Settled => term.sgr.a = want
\* an escape only ever touches attributes its style owns
Owned(st) == [fg |-> st.fg # None, bg |-> st.bg # None, ul |-> ShowsUnderlineColor(st), on |-> GroupsOf(st.eff)]
OnlyOwned ==
    op[1] \in {"open", "close"} =>
      LET o == Owned(op[2]) IN
        /\ ~o.fg => term.sgr.a.fg = before.fg
        /\ ~o.bg => term.sgr.a.bg = before.bg
        /\ ~o.ul => term.sgr.a.ul = before.ul
        /\ (term.sgr.a.on \ o.on) = (before.on \ o.on)
AllClosedIsDefault == (Settled /\ spans = <<>>) => term.sgr.a = DefaultAttrs
PlainIsSilent == (op[1] = "open" /\ IsPlain(op[2])) => term.sgr.a = before
PlainIffEmpty == \A st \in Catalogue : /\ IsPlain(st) <=> OpenBytes(st) = <<>>
                                       /\ IsPlain(st) <=> CloseBytes(st) = <<>>
=============================================================================
