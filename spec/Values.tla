------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Colors, styles and effects as values (C23), and how escapes and effect  *)
(* collections are printed (C24).                                          *)
(***************************************************************************)
EXTENDS Colors, Build

(******************************** C23: values ******************************)
\* A value is its description: a color is its kind and number(s), a style its
\* three colors and its effects.  Values are equal iff they are the same, and
\* a hash is a function of the value.
SameAs(vs, a) == {b \in 1..Len(vs) : vs[b] = vs[a]}
EqualRight(vs, eq, ne) == \A a \in 1..Len(vs) :
    LET s == SameAs(vs, a) IN {eq[a][k] : k \in 1..Len(eq[a])} = s /\ {ne[a][k] : k \in 1..Len(ne[a])} = (1..Len(vs)) \ s
HashRight(vs, h) == \A a \in 1..Len(vs) : \A b \in SameAs(vs, a) : h[b] = h[a]

\* a set of values used as keys: each operation's answer and the next set
KeyOp(s, m, a) ==
    CASE m = "insert" -> <<a \notin s, s \cup {a}>>
      [] m = "contains" -> <<a \in s, s>>
      [] m = "remove" -> <<a \in s, s \ {a}>>

(******************************* C24: printing *****************************)
\* The bytes an escape writer prints, whatever the format options are
ColorWriter(c, what) ==
    CASE what = "fmt_foreground_args" -> Text(c, "args", "fg")
      [] what = "fmt_background_args" -> Text(c, "args", "bg")
      [] what = "fmt_underline_args" -> Text(c, "args", "ul")
      [] what = "fmt_foreground" -> Text(c, "escape", "fg")
      [] what = "fmt_background" -> Text(c, "escape", "bg")
      [] what = "fmt_underline" -> Text(c, "escape", "ul")

\* printing p into a destination: it is accepted whole, or it is reported as
\* failed with a prefix accepted and nothing written after the rejection
PrintOutcome(p, f) ==
    IF f.rejected THEN /\ ~f.ok /\ f.after = 0
                       /\ Len(f.got) <= Len(p) /\ f.got = SubSeq(p, 1, Len(f.got))
    ELSE f.ok /\ f.got = p

\* debug output of a collection: the names of its members in braces
RECURSIVE Compact(_, _)
Compact(names, k) ==
    IF k > Len(names) THEN <<>>
    ELSE (IF k = 1 THEN <<>> ELSE <<44, 32>>) \o names[k] \o Compact(names, k + 1)
RECURSIVE Pretty(_, _)
Pretty(names, k) ==
    IF k > Len(names) THEN <<>>
    ELSE <<10, 32, 32, 32, 32>> \o names[k] \o <<44>> \o Pretty(names, k + 1)
Braced(x) == <<123>> \o x \o <<125>>
CompactSet(names) == Braced(Compact(names, 1))
PrettySet(names) == Braced(IF names = <<>> THEN <<>> ELSE Pretty(names, 1) \o <<10>>)

\* the names of the effects as bytes, in declaration order
EffectBytes == <<
    <<66, 111, 108, 100>>, <<68, 105, 109, 109, 101, 100>>, <<73, 116, 97, 108, 105, 99>>,
    <<85, 110, 100, 101, 114, 108, 105, 110, 101>>,
    <<68, 111, 117, 98, 108, 101, 85, 110, 100, 101, 114, 108, 105, 110, 101>>,
    <<66, 108, 105, 110, 107>>, <<66, 108, 105, 110, 107, 70, 97, 115, 116>>,
    <<82, 101, 118, 101, 114, 115, 101, 100>>, <<72, 105, 100, 100, 101, 110>>,
    <<83, 116, 114, 105, 107, 101, 116, 104, 114, 111, 117, 103, 104>>,
    <<79, 118, 101, 114, 108, 105, 110, 101>>, <<83, 117, 112, 101, 114, 83, 99, 114, 105, 112, 116>>,
    <<83, 117, 98, 83, 99, 114, 105, 112, 116>> >>
NamesOf(effs) == LET q == Listed(effs) IN [k \in 1..Len(q) |-> EffectBytes[EffectIndex[q[k]] + 1]]

\* every accepted name appears in the message of a parsing error
Mentions(b, w) == \E k \in 0..(Len(b) - Len(w)) : SubSeq(b, k + 1, k + Len(w)) = w
=============================================================================
