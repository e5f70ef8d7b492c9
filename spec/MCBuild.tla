------------------------------- MODULE MCBuild -------------------------------
(***************************************************************************)
(* All sequences of at most N building operations over a small vocabulary. *)
(* The properties are stated on the history of operations alone and hold   *)
(* of Build's actions; every complete sequence is exported and replayed on *)
(* the real library.                                                       *)
(***************************************************************************)
EXTENDS Build, Json, CSV, IOUtils, TLC

CONSTANTS N, Effs, WithValues
Colors == {<<"ansi", 1>>, <<"xterm", 200>>, <<"none">>}
Seqs == {<<>>, <<"Bold", "Bold">>, <<"SubScript", "Underline", "SubScript">>}
VARIABLES layers, hist
vars == <<layers, hist>>

StyleOps ==
    {<<m, c>> : m \in {"fg", "bg", "underline_color"}, c \in Colors}
    \cup {<<m, e>> : m \in {"with", "without", "toggled"}, e \in Effs}
    \cup {<<m, a>> : m \in WholesaleMethods, a \in Seqs}
    \cup {<<"clear_effects", "">>, <<"into_runtime_style", "">>, <<"bold", "">>, <<"subscript", "">>}
ValueOps == \* inherent methods of styled values
    {<<m, c>> : m \in {"fg", "bg", "underline_color"}, c \in Colors}
    \cup {<<m, "">> : m \in {"red", "on_bright_white", "bold", "subscript"}}
    \cup {<<"stream", s>> : s \in {"Stderr", "AlwaysColor"}} \cup {<<"stream_opt", s>> : s \in {"None", "Stdout"}}
WrapOps == {<<m, "">> : m \in {"style", "into_style", "into_red", "on_green", "into_subscript"}}
           \cup {<<"into_bg", <<"xterm", 200>>>>, <<"underline_color", <<"ansi", 1>>>>}

Init == layers = <<Plain>> /\ hist = <<>>
Do(op, wrapping) ==
    /\ layers' = OnValue(layers, wrapping, op[1], op[2])
    /\ hist' = Append(hist, <<IF wrapping THEN "W" ELSE "", op[1], op[2]>>)
Next == /\ Len(hist) < N
        /\ IF WithValues
           THEN (\E op \in ValueOps : Do(op, FALSE)) \/ (\E op \in WrapOps : Do(op, TRUE))
           ELSE \E op \in StyleOps : Do(op, FALSE)
Spec == Init /\ [][Next]_vars

(******************* the properties, on the history alone ******************)
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
Top == layers[Len(layers)]
\* operations that concern the outermost layer
Since == LET w == {k \in 1..Len(hist) : hist[k][1] = "W"} IN IF w = {} THEN 1 ELSE Max(w)
Mine == {k \in Since..Len(hist) : TRUE}
Colorings(layer) == {k \in Mine :
    CASE layer = "fg" -> hist[k][2] \in {"fg", "into_fg"} \cup DOMAIN FgMethods
      [] layer = "bg" -> hist[k][2] \in {"bg", "into_bg"} \cup DOMAIN BgMethods
      [] layer = "ul" -> hist[k][2] \in {"underline_color", "into_underline_color"}}
Given(k) == CASE hist[k][2] \in DOMAIN FgMethods -> FgMethods[hist[k][2]]
              [] hist[k][2] \in DOMAIN BgMethods -> BgMethods[hist[k][2]]
              [] OTHER -> hist[k][3]
LastWins(layer, c) == LET ks == Colorings(layer) IN c = IF ks = {} THEN NoColor ELSE Given(Max(ks))
ColorsRight == LastWins("fg", Top.fg) /\ LastWins("bg", Top.bg) /\ LastWins("ul", Top.ul)

\* an effect is present iff an odd number of toggles follows the last operation
\* that fixed it to absent, or an even number follows one that fixed it to present
Fixes(e, k) == \/ hist[k][2] \in WholesaleMethods \cup {"clear_effects"}
               \/ hist[k][2] \in {"with", "without"} /\ hist[k][3] = e
               \/ hist[k][2] \in DOMAIN EffMethods /\ EffMethods[hist[k][2]] = e
FixedTo(e, k) == \/ hist[k][2] \in WholesaleMethods /\ \E j \in 1..Len(hist[k][3]) : hist[k][3][j] = e
                 \/ hist[k][2] = "with"
                 \/ hist[k][2] \in DOMAIN EffMethods
EffectsRight == \A e \in Effects :
    LET fs == {k \in Mine : Fixes(e, k)}
        base == fs # {} /\ FixedTo(e, Max(fs))
        ts == {k \in Mine : hist[k][2] = "toggled" /\ hist[k][3] = e /\ (fs # {} => k > Max(fs))}
    IN (e \in Top.eff) = (base # (Cardinality(ts) % 2 = 1))
StreamRight ==
    LET ks == {k \in Mine : hist[k][2] \in {"stream", "stream_opt"}}
    IN Top.stream = IF ks = {} THEN "None" ELSE hist[Max(ks)][3]
\* every wrapping operation adds one layer and keeps the inner ones
LayersRight == Len(layers) = 1 + Cardinality({k \in 1..Len(hist) : hist[k][1] = "W"})
InnerKept == [][\A k \in 1..(Len(layers) - 1) : layers'[k] = layers[k]]_vars
WrapKept == [][Len(layers') > Len(layers) => SubSeq(layers', 1, Len(layers)) = layers]_vars
\* no operation changes an attribute it does not name
OneAttribute == [][Len(layers') = Len(layers) =>
    LET o == layers[Len(layers)] n == layers'[Len(layers)]
        m == hist'[Len(hist')][2] IN
      /\ (n.fg # o.fg => m = "fg" \/ m \in DOMAIN FgMethods)
      /\ (n.bg # o.bg => m = "bg" \/ m \in DOMAIN BgMethods)
      /\ (n.ul # o.ul => m = "underline_color")
      /\ (n.stream # o.stream => m \in {"stream", "stream_opt"})
      /\ (n.eff # o.eff => m \in {"with", "without", "toggled", "clear_effects"} \cup WholesaleMethods \cup DOMAIN EffMethods)]_vars

(******************* export of the complete sequences **********************)
Export == Len(hist) = N => CSVWrite("%1$s", <<ToJson([h |-> hist, l |-> [k \in 1..Len(layers) |->
    [fg |-> layers[k].fg, bg |-> layers[k].bg, ul |-> layers[k].ul, stream |-> layers[k].stream,
     eff |-> [j \in 1..13 |-> IF EffectSeq[j] \in layers[k].eff THEN 1 ELSE 0]]]])>>, IOEnv.EDGES)
=============================================================================
