------------------------------ MODULE PieceOps ------------------------------
(***************************************************************************)
(* Pieces of escapes: what each means to a terminal, and its codes.        *)
(***************************************************************************)
EXTENDS Sgr

\* A piece: <<"on", effect>>, <<"off", effect>>, <<"color", layer, color>>,
\* <<"open", style>>, <<"close", style>>, <<"reset">>
HasArgs(p) == p[1] \in {"on", "off", "color"}

\* what it means to the terminal
Meaning(p, a) ==
    CASE p[1] = "on" -> [a EXCEPT !.on = @ \cup {p[2]}]
      [] p[1] = "off" -> [a EXCEPT !.on = @ \ GroupOf[EffectOff[p[2]]]]
      [] p[1] = "color" -> [a EXCEPT ![p[2]] = OnTerminal(p[3], p[2])]
      [] p[1] = "open" -> Applied(p[2], a)
      [] p[1] = "close" -> Cleared(p[2], a)
      [] p[1] = "reset" -> DefaultAttrs
Meanings(ps, a) == FoldLeft(LAMBDA x, p : Meaning(p, x), a, ps)

\* its codes
Codes(p) ==
    CASE p[1] = "on" -> <<EffectOn[p[2]]>>
      [] p[1] = "off" -> <<EffectOff[p[2]]>>
      [] p[1] = "color" -> ColorParams(p[3], p[2])
      [] p[1] = "open" -> OpenParams(p[2])
      [] p[1] = "close" -> CloseParams(p[2])
      [] p[1] = "reset" -> <<0>>
RECURSIVE CodesOf(_, _)
CodesOf(ps, k) == IF k > Len(ps) THEN <<>> ELSE Codes(ps[k]) \o CodesOf(ps, k + 1)
ArgsBytes(p) == Joined(Codes(p), 1)
EscapeBytes(ps) == Escape(CodesOf(ps, 1))

\* the attributes a piece may change
Touches(p) ==
    CASE p[1] = "on" -> {p[2]}
      [] p[1] = "off" -> GroupOf[EffectOff[p[2]]]
      [] p[1] = "color" -> {p[2]}
      [] p[1] = "reset" -> Effects \cup {"fg", "bg", "ul"}
      [] p[1] = "open" -> p[2].eff \cup {l \in {"fg", "bg", "ul"} : p[2][l] # None}
      [] p[1] = "close" -> GroupsOf(p[2].eff) \cup {l \in {"fg", "bg", "ul"} : p[2][l] # None}
=============================================================================
