--------------------------------- MODULE Sgr ---------------------------------
(***************************************************************************)
(* A terminal that interprets SGR ("select graphic rendition") sequences,  *)
(* as a machine that consumes one byte at a time, and the meaning of a     *)
(* colorz style on it.                                                     *)
(*                                                                         *)
(* The terminal keeps each of the thirteen effects as a separate attribute *)
(* (so the order in which effects are switched on does not matter); an SGR *)
(* off code clears its whole group, as on real terminals.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Palette

ESC == 27   LBR == 91   SEMI == 59   CHM == 109   \* ESC [ ; m
IsDigit(b) == b >= 48 /\ b <= 57

(***************************** terminal colors *****************************)
DefaultColor == <<"default">>
Idx(n) == <<"idx", n>>          \* basic color 0..15
Pal(n) == <<"pal", n>>          \* 256-color palette entry
Rgb(r, g, b) == <<"rgb", r, g, b>>

DefaultAttrs == [fg |-> DefaultColor, bg |-> DefaultColor, ul |-> DefaultColor, on |-> {}]

(************************* one SGR parameter at a time *********************)
\* SGR codes of effects
OnCodes == {EffectOn[e] : e \in Effects}
OffCodes == {EffectOff[e] : e \in Effects}
EffectsWithOn == [c \in OnCodes |-> {e \in Effects : EffectOn[e] = c}]
GroupOf == [c \in OffCodes |-> {e \in Effects : EffectOff[e] = c}]

BasicIndex(code, base) == IF code < base + 60 THEN code - base ELSE code - base - 60 + 8
IsBasic(code, base) == (code >= base /\ code <= base + 7) \/ (code >= base + 60 /\ code <= base + 67)

ExtSlot == [c \in {38, 48, 58} |-> CASE c = 38 -> "fg" [] c = 48 -> "bg" [] c = 58 -> "ul"]

\* s = [a: attributes, ext: pending extended-color parameters, bad: BOOLEAN, reset: BOOLEAN]
SgrStart(a) == [a |-> a, ext |-> <<>>, bad |-> FALSE, reset |-> FALSE]

\* what a parameter does on its own
ParamClass(p) ==
    IF p = 0 THEN <<"reset">>
    ELSE IF p \in OnCodes THEN <<"on", EffectsWithOn[p]>>
    ELSE IF p \in OffCodes THEN <<"off", GroupOf[p]>>
    ELSE IF IsBasic(p, 30) THEN <<"color", "fg", Idx(BasicIndex(p, 30))>>
    ELSE IF IsBasic(p, 40) THEN <<"color", "bg", Idx(BasicIndex(p, 40))>>
    ELSE IF p = 39 THEN <<"color", "fg", DefaultColor>>
    ELSE IF p = 49 THEN <<"color", "bg", DefaultColor>>
    ELSE IF p = 59 THEN <<"color", "ul", DefaultColor>>
    ELSE IF p \in DOMAIN ExtSlot THEN <<"ext", ExtSlot[p]>>
    ELSE <<"bad">>

PlainParam(s, p) ==
    LET c == ParamClass(p) IN
    CASE c[1] = "reset" -> [s EXCEPT !.a = DefaultAttrs, !.reset = TRUE]
      [] c[1] = "on" -> [s EXCEPT !.a.on = @ \cup c[2]]
      [] c[1] = "off" -> [s EXCEPT !.a.on = @ \ c[2]]
      [] c[1] = "color" -> [s EXCEPT !.a[c[2]] = c[3]]
      [] c[1] = "ext" -> [s EXCEPT !.ext = <<p>>]
      [] c[1] = "bad" -> [s EXCEPT !.bad = TRUE]

ExtParam(s, p) ==
    LET x == Append(s.ext, p)
        slot == ExtSlot[x[1]]
        done(c) == [s EXCEPT !.ext = <<>>, !.a[slot] = c]
    IN  CASE Len(x) = 2 /\ p \in {2, 5} -> [s EXCEPT !.ext = x]
          [] Len(x) = 2 /\ p \notin {2, 5} -> [s EXCEPT !.bad = TRUE]
          [] Len(x) > 2 /\ p > 255 -> [s EXCEPT !.bad = TRUE]
          [] Len(x) = 3 /\ x[2] = 5 /\ p <= 255 -> done(Pal(p))
          [] Len(x) \in {3, 4} /\ x[2] = 2 /\ p <= 255 -> [s EXCEPT !.ext = x]
          [] Len(x) = 5 /\ p <= 255 -> done(Rgb(x[3], x[4], p))

Param(s, p) == IF s.bad THEN s ELSE IF s.ext = <<>> THEN PlainParam(s, p) ELSE ExtParam(s, p)

(***************************** one byte at a time **************************)
\* lex: "ground" | "esc" | "csi" (no digit of this parameter yet) | "num"
TermStart(a) == [lex |-> "ground", num |-> 0, sgr |-> SgrStart(a), text |-> <<>>]

Broken(t) == [t EXCEPT !.sgr.bad = TRUE]

Byte(t, b) ==
    IF t.sgr.bad THEN t ELSE
    CASE t.lex = "ground" ->
           IF b = ESC THEN [t EXCEPT !.lex = "esc"]
           ELSE [t EXCEPT !.text = Append(@, <<b, t.sgr.a>>)]
      [] t.lex = "esc" -> IF b = LBR THEN [t EXCEPT !.lex = "csi", !.num = 0] ELSE Broken(t)
      [] t.lex = "csi" -> IF IsDigit(b) THEN [t EXCEPT !.lex = "num", !.num = b - 48] ELSE Broken(t)
      [] t.lex = "num" ->
           IF IsDigit(b) THEN IF t.num > 999 THEN Broken(t) ELSE [t EXCEPT !.num = @ * 10 + (b - 48)]
           ELSE IF b = SEMI THEN [t EXCEPT !.lex = "csi", !.num = 0, !.sgr = Param(@, t.num)]
           ELSE IF b = CHM THEN
                LET s == Param(t.sgr, t.num)
                IN [t EXCEPT !.lex = "ground", !.num = 0,
                             !.sgr = IF s.ext # <<>> THEN [s EXCEPT !.bad = TRUE] ELSE s]
           ELSE Broken(t)

Bytes(t, bs) == FoldLeft(Byte, t, bs)

\* The escapes seen so far were all complete and well formed, with explicit
\* parameters, and there was no other output.
Clean(t) == ~t.sgr.bad /\ t.lex = "ground" /\ t.text = <<>>
NoReset(t) == ~t.sgr.reset

(********************************* styles **********************************)
\* A color value is one of <<"ansi", i>>, <<"xterm", n>>, <<"css", name>>,
\* <<"rgb", r, g, b>>; a layer without a color is None.
None == <<"none">>

RgbTuple(t) == Rgb(t[1], t[2], t[3])

OnTerminal(c, layer) ==
    CASE c[1] = "ansi" -> IF layer = "ul" THEN Pal(AnsiToXterm(c[2]))
                          ELSE IF c[2] = 16 THEN DefaultColor ELSE Idx(c[2])
      [] c[1] = "xterm" -> Pal(c[2])
      [] c[1] = "css" -> RgbTuple(CssRgbOf[c[2]])
      [] c[1] = "rgb" -> Rgb(c[2], c[3], c[4])

PlainStyle == [fg |-> None, bg |-> None, ul |-> None, eff |-> {}]

ShowsUnderlineColor(st) == st.ul # None /\ st.eff \cap AnyUnderline # {}

\* Plain: nothing to write
IsPlain(st) == st.fg = None /\ st.bg = None /\ st.eff = {}

\* What the terminal must look like after the opening / closing sequence
Applied(st, a) ==
    [fg |-> IF st.fg = None THEN a.fg ELSE OnTerminal(st.fg, "fg"),
     bg |-> IF st.bg = None THEN a.bg ELSE OnTerminal(st.bg, "bg"),
     ul |-> IF ShowsUnderlineColor(st) THEN OnTerminal(st.ul, "ul") ELSE a.ul,
     on |-> a.on \cup st.eff]

GroupsOf(effs) == UNION {GroupOf[EffectOff[e]] : e \in effs}

Cleared(st, a) ==
    [fg |-> IF st.fg = None THEN a.fg ELSE DefaultColor,
     bg |-> IF st.bg = None THEN a.bg ELSE DefaultColor,
     ul |-> IF ShowsUnderlineColor(st) THEN DefaultColor ELSE a.ul,
     on |-> a.on \ GroupsOf(st.eff)]

(*********************** a reference encoder (design) **********************)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

ColorParams(c, layer) ==
    LET ext == CASE layer = "fg" -> 38 [] layer = "bg" -> 48 [] layer = "ul" -> 58
        t == OnTerminal(c, layer)
    IN  CASE t[1] = "default" -> <<ext + 1>>
          [] t[1] = "idx" -> <<IF layer = "fg" THEN AnsiFgCode(c[2]) ELSE AnsiBgCode(c[2])>>
          [] t[1] = "pal" -> <<ext, 5, t[2]>>
          [] t[1] = "rgb" -> <<ext, 2, t[2], t[3], t[4]>>

RECURSIVE EffectParams(_, _, _)
EffectParams(eff, code, i) ==
    IF i > Len(EffectSeq) THEN <<>>
    ELSE (IF EffectSeq[i] \in eff THEN <<code[EffectSeq[i]]>> ELSE <<>>) \o EffectParams(eff, code, i + 1)

OpenParams(st) ==
    (IF ShowsUnderlineColor(st) THEN ColorParams(st.ul, "ul") ELSE <<>>) \o
    (IF st.fg # None THEN ColorParams(st.fg, "fg") ELSE <<>>) \o
    (IF st.bg # None THEN ColorParams(st.bg, "bg") ELSE <<>>) \o
    EffectParams(st.eff, EffectOn, 1)

CloseParams(st) ==
    (IF ShowsUnderlineColor(st) THEN <<59>> ELSE <<>>) \o
    (IF st.fg # None THEN <<39>> ELSE <<>>) \o
    (IF st.bg # None THEN <<49>> ELSE <<>>) \o
    EffectParams(st.eff, EffectOff, 1)

RECURSIVE Joined(_, _)
Joined(ps, i) == IF i > Len(ps) THEN <<>>
                 ELSE (IF i = 1 THEN <<>> ELSE <<SEMI>>) \o Digits(ps[i]) \o Joined(ps, i + 1)
Escape(ps) == IF ps = <<>> THEN <<>> ELSE <<ESC, LBR>> \o Joined(ps, 1) \o <<CHM>>

OpenBytes(st) == Escape(OpenParams(st))
CloseBytes(st) == Escape(CloseParams(st))
ClearAllBytes == Escape(<<0>>)
=============================================================================
