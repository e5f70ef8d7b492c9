-------------------------------- MODULE Colors --------------------------------
(***************************************************************************)
(* What every accessor and conversion of a color must give (C05, C06).     *)
(* Evaluated by TLC on records dumped from the real library:               *)
(*   [c: color,                                                            *)
(*    texts: seq of [form, layer, b (bytes), via (accessors)],             *)
(*    convs: seq of [to, r (color), via],                                  *)
(*    kinds: seq of [k, via]]                                              *)
(***************************************************************************)
EXTENDS Sgr, Json, IOUtils

\* the parameters that follow 38 / 48 / 58
RawParams(c) == Tail(ColorParams(c, "fg"))

Text(c, form, layer) ==
    CASE form = "args" -> Joined(ColorParams(c, layer), 1)
      [] form = "escape" -> Escape(ColorParams(c, layer))
      [] form = "raw" -> Joined(RawParams(c), 1)

\* conversions: the same color in another representation, the 256-color entry
\* of an ANSI color, the RGB value of a CSS color
Converted(c, to) ==
    CASE to = "same" -> c
      [] to = "xterm" -> IF c[1] = "ansi" THEN <<"xterm", AnsiToXterm(c[2])>> ELSE c
      [] to = "rgb" -> IF c[1] = "css" THEN <<"rgb">> \o CssRgbOf[c[2]] ELSE c

KindOf(c) == CASE c[1] = "ansi" -> "Ansi" [] c[1] = "xterm" -> "Xterm" [] c[1] \in {"css", "rgb"} -> "Rgb"
                [] c[1] = "none" -> "NoColor"

-----------------------------------------------------------------------------
Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i
Init == i \in 1..16
Next == i + 16 <= Len(Recs) /\ i' = i + 16

R == Recs[i]
On(P) == i <= Len(Recs) => P
TextsRight == On(\A k \in 1..Len(R.texts) : R.texts[k].b = Text(R.c, R.texts[k].form, R.texts[k].layer))
ConversionsRight == On(\A k \in 1..Len(R.convs) : R.convs[k].r = Converted(R.c, R.convs[k].to))
KindsRight == On(\A k \in 1..Len(R.kinds) : R.kinds[k].k = KindOf(R.c))
=============================================================================
