------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* Bounded exploration of System, next to what an encoder writes: the      *)
(* bytes written must show exactly the cells of System.      *)
(***************************************************************************)
EXTENDS System

CONSTANTS MaxOps, MaxDepth, MaxPrints, Calls, Settings, Spans

VARIABLES written,  \* what each of the prints going on has written
          texts,    \* the bytes of the strings
          spoilt,   \* terminals on which a span was opened, or a print failed, since their last reset
          ops
mvars == <<svars, written, texts, spoilt, ops>>

\* styled values, as the methods that build them
C(w, m, a) == [w |-> w, m |-> m, a |-> a]
RedText == <<35, 102, 48, 48, 49, 48, 57>>       \* #f00109
CallsSmall == {
    <<C(TRUE, "red", ""), C(FALSE, "bold", "")>>,
    <<C(TRUE, "into_fg", <<"text", RedText>>), C(FALSE, "dimmed", "")>>,
    <<C(TRUE, "into_underline_color", <<"ansi", 1>>), C(FALSE, "underline", ""), C(TRUE, "on_blue", ""), C(FALSE, "stream", "Stderr")>> }
CallsAll == CallsSmall \cup {
    <<C(TRUE, "style", "")>>,
    <<C(TRUE, "bg", <<"xterm", 9>>), C(FALSE, "stream", "NeverColor"), C(TRUE, "into_style_with", <<[m |-> "fg", a |-> <<"css", "Tan">>], [m |-> "with", a |-> "SubScript"]>>)>> }
SpansSmall == { [fg |-> <<"ansi", 16>>, bg |-> None, ul |-> <<"ansi", 12>>, eff |-> {"Underline", "Bold"}] }

MInit == /\ InitSettings /\ SInit /\ env = [v \in EnvVars |-> "-"]
         /\ support \in {[f \in Fds |-> l] : l \in Levels}
         /\ written = <<>> /\ texts = <<>> /\ spoilt = {} /\ ops = 0

Same == UNCHANGED <<written, texts, spoilt>>
Writes(bs) == written' = [written EXCEPT ![Len(written)] = @ \o bs] /\ UNCHANGED texts
\* what is in a sink that is going to be pasted or looked at may be spoilt
Spoils(f) == spoilt' = spoilt \cup {f}

MPrint == /\ Len(prints) < MaxPrints
          /\ \E f \in Sinks : PrintTo(f) /\ (f = "string" => Len(strings) < 1)
          /\ written' = Append(written, <<>>) /\ UNCHANGED <<texts, spoilt>>
MBegin == \E c \in Calls : /\ prints # <<>> /\ Len(Top.open) < MaxDepth
                           /\ Begin(LayersOf(c))
                           /\ LET p == prints'[Len(prints)] IN
                              Writes(FoldLeft(LAMBDA b, l : b \o OpenBytes(l), <<>>, p.open[Len(p.open)]))
                           /\ UNCHANGED spoilt
MText == /\ Text(<<120>>) /\ Writes(<<120>>) /\ UNCHANGED spoilt
         /\ LET c == Top.cells IN IF c = <<>> THEN TRUE ELSE c[Len(c)][2] # Top.a
MPaste == \E k \in 1..Len(strings) :
            Paste(k) /\ Writes(texts[k]) /\ IF "string" \in spoilt THEN Spoils(Top.to) ELSE UNCHANGED spoilt
MEnd == /\ End /\ Writes(FoldLeft(LAMBDA b, l : b \o CloseBytes(l), <<>>, Reverse(Top.open[Len(Top.open)])))
        /\ UNCHANGED spoilt
MFail == /\ Fail /\ Spoils(Top.to) /\ UNCHANGED <<written, texts>>
MFinish == /\ Finish /\ written' = SubSeq(written, 1, Len(written) - 1)
           /\ texts' = IF Top.to = "string" THEN Append(texts, written[Len(written)]) ELSE texts
           /\ UNCHANGED spoilt
MSpan == /\ Spans # {}
         /\ \E f \in Fds : \/ \E s \in Spans : OpenSpan(f, s) /\ Spoils(f)
                           \/ \E s \in Spans : CloseSpan(f, s) /\ UNCHANGED spoilt
                           \/ ResetSpan(f) /\ spoilt' = spoilt \ {f}
         /\ UNCHANGED <<written, texts>>
MSet == \/ \E m \in Settings \ {mode} : ChooseMode(<<"is", m>>) /\ Same
        \/ \E s \in {"NeverColor", "Stdout"} \ {dflt} : ChooseStream(<<"is", s>>) /\ Same
\* once there is no room left, what is open is closed
MNext == \/ /\ ops < MaxOps /\ ops' = ops + 1
            /\ (MPrint \/ MBegin \/ MText \/ MPaste \/ MFail \/ MSpan \/ MSet)
         \/ (MEnd \/ MFinish) /\ UNCHANGED ops
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
\* the bytes mean the cells
Shown == \A k \in 1..Len(prints) :
    \E t \in {Bytes(TermStart(prints[k].start), written[k])} :
      ~t.sgr.bad /\ t.lex = "ground" /\ ~t.sgr.reset /\ t.text = prints[k].cells /\ t.sgr.a = prints[k].a
\* nothing leaks: outside of prints and spans, text looks as always
NoLeak == \A f \in Fds \ spoilt : term[f] = DefaultAttrs
\* a pasted string shows what it would have shown
Pasted == \A k \in 1..Len(strings) : FoldLeft(Moved, Fresh("string", DefaultAttrs), strings[k]).cells
                                     = Bytes(TermStart(DefaultAttrs), texts[k]).text
\* a print changes nothing but the terminal it goes to, and that when it is over
Other == [][\A f \in Fds : term'[f] # term[f] =>
              \/ prints' = prints
              \/ prints # <<>> /\ Top.to = f /\ prints' = SubSeq(prints, 1, Len(prints) - 1)]_mvars
\* what an enclosing print shows does not change meanwhile
Outer == [][\A k \in 1..(Len(prints) - 1) : prints'[k] = prints[k]]_mvars
\* the innermost colored layer decides
Innermost == [][ (prints # <<>> /\ Len(prints') = Len(prints)) =>
     LET p == prints'[Len(prints)] IN
       (Len(p.open) > Len(Top.open) /\ p.open[Len(p.open)] # <<>>) =>
         LET l == p.open[Len(p.open)][Len(p.open[Len(p.open)])] IN
           /\ l.fg # None => p.a.fg = OnTerminal(l.fg, "fg")
           /\ l.bg # None => p.a.bg = OnTerminal(l.bg, "bg")
           /\ l.eff \subseteq p.a.on ]_mvars
\* settings and screens do not influence each other
Apart == [][ (term' # term \/ prints' # prints) => (mode' = mode /\ dflt' = dflt) ]_mvars
Stripped == Strip => \A n \in 1..Len(prints) : \A k \in 1..Len(prints[n].open) : prints[n].open[k] = <<>>
=============================================================================
