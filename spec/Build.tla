-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Building styles and styled values (C16, C17) and collections of effects *)
(* (C18).                                                                  *)
(*                                                                         *)
(* A styled value is a sequence of layers around a value, innermost first; *)
(* a style is a layer whose stream is "None".  A layer is a record         *)
(*    [fg, bg, ul: color, eff: set of effects, stream]                     *)
(* Every method is an action on such records, named by the method.         *)
(***************************************************************************)
EXTENDS Palette, FiniteSets

NoColor == <<"none">>
Plain == [fg |-> NoColor, bg |-> NoColor, ul |-> NoColor, eff |-> {}, stream |-> "None"]
Streams == {"Stdout", "Stderr", "AlwaysColor", "NeverColor"}

\* the convenience methods of the sixteen ANSI colors, position = index + 1
AnsiMethods == <<
    <<"black", "into_black", "on_black", "into_on_black">>,
    <<"red", "into_red", "on_red", "into_on_red">>,
    <<"green", "into_green", "on_green", "into_on_green">>,
    <<"yellow", "into_yellow", "on_yellow", "into_on_yellow">>,
    <<"blue", "into_blue", "on_blue", "into_on_blue">>,
    <<"magenta", "into_magenta", "on_magenta", "into_on_magenta">>,
    <<"cyan", "into_cyan", "on_cyan", "into_on_cyan">>,
    <<"white", "into_white", "on_white", "into_on_white">>,
    <<"bright_black", "into_bright_black", "on_bright_black", "into_on_bright_black">>,
    <<"bright_red", "into_bright_red", "on_bright_red", "into_on_bright_red">>,
    <<"bright_green", "into_bright_green", "on_bright_green", "into_on_bright_green">>,
    <<"bright_yellow", "into_bright_yellow", "on_bright_yellow", "into_on_bright_yellow">>,
    <<"bright_blue", "into_bright_blue", "on_bright_blue", "into_on_bright_blue">>,
    <<"bright_magenta", "into_bright_magenta", "on_bright_magenta", "into_on_bright_magenta">>,
    <<"bright_cyan", "into_bright_cyan", "on_bright_cyan", "into_on_bright_cyan">>,
    <<"bright_white", "into_bright_white", "on_bright_white", "into_on_bright_white">> >>

\* the convenience methods of the effects
EffectMethods == <<
    <<"bold", "into_bold", "Bold">>, <<"dimmed", "into_dimmed", "Dimmed">>,
    <<"italics", "into_italics", "Italic">>, <<"underline", "into_underline", "Underline">>,
    <<"double_underline", "into_double_underline", "DoubleUnderline">>,
    <<"blink", "into_blink", "Blink">>, <<"blink_fast", "into_blink_fast", "BlinkFast">>,
    <<"reverse", "into_reverse", "Reversed">>, <<"hide", "into_hide", "Hidden">>,
    <<"strikethrough", "into_strikethrough", "Strikethrough">>,
    <<"overline", "into_overline", "Overline">>,
    <<"superscript", "into_superscript", "SuperScript">>,
    <<"subscript", "into_subscript", "SubScript">> >>

Named(table, col) == {table[i][col] : i \in 1..Len(table)}
FgMethods == [m \in Named(AnsiMethods, 1) \cup Named(AnsiMethods, 2) |->
                 <<"ansi", (CHOOSE i \in 1..16 : m \in {AnsiMethods[i][1], AnsiMethods[i][2]}) - 1>>]
BgMethods == [m \in Named(AnsiMethods, 3) \cup Named(AnsiMethods, 4) |->
                 <<"ansi", (CHOOSE i \in 1..16 : m \in {AnsiMethods[i][3], AnsiMethods[i][4]}) - 1>>]
EffMethods == [m \in Named(EffectMethods, 1) \cup Named(EffectMethods, 2) |->
                 EffectMethods[CHOOSE i \in 1..13 : m \in {EffectMethods[i][1], EffectMethods[i][2]}][3]]

Toggled(s, e) == IF e \in s THEN s \ {e} ELSE s \cup {e}
SeqSet(a) == {a[i] : i \in 1..Len(a)}

\* the methods that replace all effects: the argument is a sequence of effects
WholesaleMethods == {"effects", "effects_array", "effect_flags"}

(* One method m, with argument a, on one layer (a style, or the outermost   *)
(* layer of a styled value).                                               *)
Method(l, m, a) ==
    CASE m \in {"fg", "into_fg"} -> [l EXCEPT !.fg = a]
      [] m \in {"bg", "into_bg"} -> [l EXCEPT !.bg = a]
      [] m \in {"underline_color", "into_underline_color"} -> [l EXCEPT !.ul = a]
      [] m \in DOMAIN FgMethods -> [l EXCEPT !.fg = FgMethods[m]]
      [] m \in DOMAIN BgMethods -> [l EXCEPT !.bg = BgMethods[m]]
      [] m \in DOMAIN EffMethods -> [l EXCEPT !.eff = @ \cup {EffMethods[m]}]
      [] m = "with" -> [l EXCEPT !.eff = @ \cup {a}]
      [] m = "without" -> [l EXCEPT !.eff = @ \ {a}]
      [] m = "toggled" -> [l EXCEPT !.eff = Toggled(@, a)]
      [] m \in WholesaleMethods -> [l EXCEPT !.eff = SeqSet(a)]
      [] m = "clear_effects" -> [l EXCEPT !.eff = {}]
      [] m \in {"into_runtime_style", "const_into_runtime_style"} -> l
      [] m = "stream" -> [l EXCEPT !.stream = a]
      [] m = "stream_opt" -> [l EXCEPT !.stream = a]
      \* wrapping
      [] m \in {"style", "into_style"} -> l
      [] m \in {"style_with", "into_style_with"} -> [a EXCEPT !.stream = "None"]

(* A method on a styled value: `wrapping` methods (those of plain values)   *)
(* start a new layer, the others change the outermost one.                 *)
OnValue(layers, wrapping, m, a) ==
    IF wrapping THEN Append(layers, Method(Plain, m, a))
    ELSE [layers EXCEPT ![Len(layers)] = Method(@, m, a)]

(************************* collections of effects **************************)
FlagsOp(s, m, a) ==
    CASE m \in {"with", "set"} -> s \cup {a}
      [] m \in {"without", "unset"} -> s \ {a}
      [] m \in {"toggled", "toggle"} -> Toggled(s, a)
      [] m \in {"from_array", "from_iter", "collect"} -> SeqSet(a)
      [] m \in {"new", "default"} -> {}
      [] m = "all" -> Effects
      [] m = "copy" -> s

First(s) == CHOOSE e \in s : \A x \in s : EffectIndex[e] <= EffectIndex[x]
RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE <<First(s)>> \o Listed(s \ {First(s)})

(* The iterator: what is left.  An answer is a sequence: empty for "end".  *)
IterNext(left) == IF left = {} THEN <<{}, <<>>>> ELSE <<left \ {First(left)}, <<First(left)>>>>
RECURSIVE IterSkip(_, _)
IterSkip(left, n) == IF n = 0 THEN left ELSE IterSkip(IterNext(left)[1], n - 1)
IterNth(left, n) == IterNext(IterSkip(left, n))
=============================================================================
