------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The whole library as a program uses it (C26): styles are built by       *)
(* methods (Build), with colors written in the program or read from text   *)
(* (Parse); settings change (ColorMode); styled values, and values inside  *)
(* values, are printed to two terminals (Sgr) and into strings, one print  *)
(* perhaps in the midst of another; values fail or panic; escapes of       *)
(* single styles are sent.  What do the terminals show?                    *)
(***************************************************************************)
EXTENDS ColorMode, Sgr

B == INSTANCE Build
P == INSTANCE Parse

VARIABLES term,     \* [Fds -> attributes]: what new text on each terminal would look like
          prints,   \* the prints that are going on, the latest last: a value may itself print
                    \* while it is formatted, to the other terminal or into a string
          strings   \* the strings made so far: the moves that made them
screen == <<term, prints, strings>>
svars == <<vars, screen>>

Sinks == Fds \cup {"string"}
\* a print: where to; what the sink looked like when it began and looks like now; the colored
\* layers around what is being formatted, per value, outermost first; what was shown, as
\* <<character, attributes>>; and what was done: layers opened and closed, text
Fresh(f, a) == [to |-> f, start |-> a, a |-> a, open |-> <<>>, cells |-> <<>>, moves |-> <<>>]

SInit == /\ term = [f \in Fds |-> DefaultAttrs] /\ prints = <<>> /\ strings = <<>>

(************************** styles and their layers *************************)
\* a color is given as it is, or as text; text that is no color gives none
ColorOf(a) ==
    IF a[1] # "text" THEN a
    ELSE LET c == P!Parse("color", a[2]) IN IF c[1] = "error" THEN None ELSE c
ColorCalls == {"fg", "bg", "underline_color", "into_fg", "into_bg", "into_underline_color"}
StyleWith == {"style_with", "into_style_with"}

\* a style: the methods called, one after another
StyleOf(calls) == FoldLeft(LAMBDA l, c : B!Method(l, c.m, IF c.m \in ColorCalls THEN ColorOf(c.a) ELSE c.a), B!Plain, calls)
\* a styled value: its layers, innermost first
LayersOf(calls) ==
    FoldLeft(LAMBDA ls, c : B!OnValue(ls, c.w, c.m,
                 IF c.m \in ColorCalls THEN ColorOf(c.a) ELSE IF c.m \in StyleWith THEN StyleOf(c.a) ELSE c.a), <<>>, calls)

KindOf(c) == CASE c[1] = "none" -> "NoColor" [] c[1] = "ansi" -> "Ansi" [] c[1] = "xterm" -> "Xterm"
               [] c[1] \in {"css", "rgb"} -> "Rgb"
KindsOf(l) == {KindOf(l.fg), KindOf(l.bg), KindOf(l.ul)}
Bare(l) == [fg |-> l.fg, bg |-> l.bg, ul |-> l.ul, eff |-> l.eff]

(********************************* printing *********************************)
\* is this layer colored now, and what has then been detected?
Decide(l, c) ==
    LET v == Verdict(mode, dflt, l.stream) IN
    IF v \in {"yes", "no"} THEN [on |-> v = "yes", cache |-> c]
    ELSE LET level == IF c[v] = Unknown THEN support[v] ELSE c[v]
         IN  [on |-> Supports(level, KindsOf(l)), cache |-> [c EXCEPT ![v] = level]]
\* the layers of one value decide from the outside in
Decided(ls) ==
    FoldLeft(LAMBDA x, l : LET d == Decide(l, x.cache)
                           IN  [on |-> IF d.on THEN Append(x.on, Bare(l)) ELSE x.on, cache |-> d.cache],
             [on |-> <<>>, cache |-> cache], Reverse(ls))

\* what a move does to a print
Opened(p, l) == [p EXCEPT !.a = Applied(l, @), !.moves = Append(@, <<"open", l>>)]
Closed(p, l) == [p EXCEPT !.a = Cleared(l, @), !.moves = Append(@, <<"close", l>>)]
Shows(p, bs) == [p EXCEPT !.cells = @ \o [k \in 1..Len(bs) |-> <<bs[k], p.a>>], !.moves = Append(@, <<"text", bs>>)]
Moved(p, m) == CASE m[1] = "open" -> Opened(p, m[2]) [] m[1] = "close" -> Closed(p, m[2]) [] m[1] = "text" -> Shows(p, m[2])

Printing == {prints[k].to : k \in 1..Len(prints)}
Top == prints[Len(prints)]
\* the latest print goes on
Go(p) == prints' = [prints EXCEPT ![Len(prints)] = p] /\ UNCHANGED <<term, strings>>
\* ... without the library deciding anything
GoOn(p) == prints # <<>> /\ Go(p) /\ UNCHANGED vars

PrintTo(f) == /\ f \in Sinks /\ (f \in Fds => f \notin Printing)
              /\ prints' = Append(prints, Fresh(f, IF f \in Fds THEN term[f] ELSE DefaultAttrs))
              /\ UNCHANGED <<vars, term, strings>>
\* a styled value (its layers, innermost first) starts being formatted
Begin(ls) == /\ prints # <<>>
             /\ \E d \in {Decided(ls)} :
                  /\ cache' = d.cache
                  /\ Go([FoldLeft(Opened, Top, d.on) EXCEPT !.open = Append(@, d.on)])
             /\ UNCHANGED <<mode, dflt, support, env, res>>
\* a value shows text
Text(bs) == GoOn(Shows(Top, bs))
\* ... or a string made earlier, which shows what it showed
Paste(k) == k \in 1..Len(strings) /\ GoOn(FoldLeft(Moved, Top, strings[k]))
\* ... and is done
Left(p) == SubSeq(p.open, 1, Len(p.open) - 1)
End == /\ prints # <<>> /\ Top.open # <<>>
       /\ GoOn([FoldLeft(Closed, Top, Reverse(Top.open[Len(Top.open)])) EXCEPT !.open = Left(Top)])
\* a value fails, or panics: its layers stay as they are
Fail == /\ prints # <<>> /\ Top.open # <<>>
        /\ GoOn([Top EXCEPT !.open = Left(Top)])
Finish == /\ prints # <<>> /\ Top.open = <<>>
          /\ prints' = SubSeq(prints, 1, Len(prints) - 1)
          /\ IF Top.to \in Fds THEN term' = [term EXCEPT ![Top.to] = Top.a] /\ UNCHANGED strings
                                ELSE strings' = Append(strings, Top.moves) /\ UNCHANGED term
          /\ UNCHANGED vars

\* the escapes of a style, sent on their own
Send(f, a) == f \notin Printing /\ term' = [term EXCEPT ![f] = a] /\ UNCHANGED <<vars, prints, strings>>
OpenSpan(f, st) == Send(f, Applied(st, term[f]))
CloseSpan(f, st) == Send(f, Cleared(st, term[f]))
ResetSpan(f) == Send(f, DefaultAttrs)

(********************************* settings *********************************)
\* a mode (stream) given as it is, or as text; other text changes nothing
Word(machine, a) == IF a[1] # "text" THEN <<"ok", a[2]>> ELSE P!Parse(machine, a[2])
ChooseMode(a) == LET w == Word("mode", a) IN
                 (IF w[1] = "ok" THEN SetMode(w[2]) ELSE UNCHANGED state /\ res' = "ok") /\ UNCHANGED screen
ChooseStream(a) == LET w == Word("stream", a) IN
                   (IF w[1] = "ok" THEN SetDefault(w[2]) ELSE UNCHANGED state /\ res' = "ok") /\ UNCHANGED screen
AskEnvironment == EnvSet /\ UNCHANGED screen
=============================================================================
