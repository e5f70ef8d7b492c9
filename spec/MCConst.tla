------------------------------- MODULE MCConst -------------------------------
(***************************************************************************)
(* Constant expressions (C22): random behaviours of Build restricted to    *)
(* what can be evaluated at compile time.  A program builds a style, may   *)
(* make a styled value of it, and may wrap that; or builds a collection of *)
(* effects.  TLC's simulator generates the programs with the values they   *)
(* must give; each is compiled as a constant expression and also executed  *)
(* at run time.                                                            *)
(***************************************************************************)
EXTENDS Build, Json, CSV, IOUtils, TLC

CONSTANTS N
VARIABLES phase,   \* "style", "value", "flags", "done"
          layers, set, hist
vars == <<phase, layers, set, hist>>

Colors == {<<"none">>} \cup {<<"ansi", i>> : i \in AnsiIndices} \cup {<<"xterm", i>> : i \in {0, 7, 16, 99, 200, 255}}
          \cup {<<"css", n>> : n \in {"AliceBlue", "Gold", "Tan", "YellowGreen"}}
          \cup {<<"rgb", 0, 9, 255>>, <<"rgb", 10, 100, 99>>, <<"rgb", 1, 2, 3>>}
Seqs == UNION {[1..k -> {"Bold", "SubScript", "Underline", "Overline"}] : k \in 0..3}
        \cup {EffectSeq, <<"Hidden", "Reversed", "Hidden", "Bold">>}

Init == /\ phase \in {"style", "flags"} /\ layers = <<Plain>> /\ set = {} /\ hist = <<>>

Did(m, a) == hist' = Append(hist, <<m, a>>)
Style(m, a) == /\ phase = "style" /\ layers' = OnValue(layers, FALSE, m, a) /\ Did(m, a) /\ UNCHANGED <<phase, set>>
Erase == /\ phase = "style" /\ Did("erase", "") /\ UNCHANGED <<phase, layers, set>>
MakeValue(s) == /\ phase = "style" /\ Len(hist) >= N \div 2 /\ phase' = "value"
                /\ layers' = [layers EXCEPT ![1].stream = s]
                /\ Did("value", s) /\ UNCHANGED set
Value(wrapping, m, a) == /\ phase = "value" /\ layers' = OnValue(layers, wrapping, m, a) /\ Did(m, a) /\ UNCHANGED <<phase, set>>
Flags(m, a) == /\ phase = "flags" /\ set' = FlagsOp(set, m, a) /\ Did(m, a) /\ UNCHANGED <<phase, layers>>

Finish == Len(hist) = N /\ phase # "done" /\ phase' = "done" /\ UNCHANGED <<layers, set, hist>>
Next == Finish \/ (Len(hist) < N /\ phase # "done" /\
    \/ \E m \in {"fg", "bg", "underline_color"}, c \in Colors : Style(m, c)
    \/ \E e \in Effects, m \in {"with", "without", "toggled"}, k \in 1..2 : Style(m, e)
    \/ \E k \in 1..13 : Style(EffectMethods[k][1], "")
    \/ \E m \in {"effects_array", "effect_flags"}, a \in Seqs : RandomElement(1..4) = 1 /\ Style(m, a)
    \/ Style("clear_effects", "")
    \/ \E k \in 1..8 : Erase
    \/ \E s \in Streams \cup {"None"}, k \in 1..8 : MakeValue(s)
    \/ \E s \in Streams : Value(FALSE, "stream", s)
    \/ \E s \in Streams \cup {"None"} : Value(FALSE, "stream_opt", s)
    \/ \E m \in {"style", "into_style"} : Value(TRUE, m, "")
    \/ \E e \in Effects, m \in {"with", "without", "toggled"} : Flags(m, e)
    \/ \E a \in Seqs : RandomElement(1..20) = 1 /\ Flags("from_array", a)
    \/ \E m \in {"new", "all"} : Flags(m, ""))
Spec == Init /\ [][Next]_vars

Mask(s) == [j \in 1..13 |-> IF EffectSeq[j] \in s THEN 1 ELSE 0]
\* only the programs chosen, not the alternatives the simulator looked at
Export == phase = "done" => CSVWrite("%1$s", <<ToJson([h |-> hist, set |-> Mask(set), l |-> [k \in 1..Len(layers) |->
    [fg |-> layers[k].fg, bg |-> layers[k].bg, ul |-> layers[k].ul, stream |-> layers[k].stream, eff |-> Mask(layers[k].eff)]]])>>, IOEnv.EDGES)
=============================================================================
