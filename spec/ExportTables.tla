---------------------------- MODULE ExportTables ----------------------------
(***************************************************************************)
(* Writes the tables of Sgr and Palette as JSON; the drivers interpret     *)
(* them, so there is no second copy of the specification in the drivers.   *)
(* (The table-driven interpreter in the driver is itself validated against *)
(* Sgr by TraceEngine.tla.)                                                *)
(***************************************************************************)
EXTENDS Sgr, Json, IOUtils, TLC

Layers == <<"fg", "bg", "ul">>
ColorsOf(Make(_), ids) == [k \in 1..Len(ids) |-> [l \in 1..3 |-> OnTerminal(Make(ids[k]), Layers[l])]]
Ansi(i) == <<"ansi", i>>
Xterm(n) == <<"xterm", n>>
Css(n) == <<"css", n>>

\* without the three components and their separators
Prefix(s) == SubSeq(s, 1, Len(s) - 5)

Tables == [params  |-> [k \in 1..300 |-> ParamClass(k - 1)],
           ansi    |-> ColorsOf(Ansi, [k \in 1..17 |-> k - 1]),
           xterm   |-> ColorsOf(Xterm, [k \in 1..256 |-> k - 1]),
           css     |-> ColorsOf(Css, CssNames),
           ansiNames  |-> AnsiNames,
           xtermNames |-> XtermNames,
           cssNames   |-> CssNames,
           effects |-> [k \in 1..Len(EffectTable) |->
                          [name |-> EffectSeq[k], on |-> EffectTable[k][2], off |-> EffectTable[k][3],
                           method |-> EffectTable[k][4],
                           group |-> GroupOf[EffectTable[k][3]]]],
           anyUnderline |-> AnyUnderline,
           decimals |-> [k \in 1..256 |-> DecBytes(k - 1)],
           rgbPrefix |-> [l \in 1..3 |-> Prefix(Joined(ColorParams(<<"rgb", 0, 0, 0>>, Layers[l]), 1))],
           clearAll |-> ClearAllBytes]

ASSUME JsonSerialize(IOEnv.OUT, Tables)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
