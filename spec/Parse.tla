-------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* The three text parsers as machines that consume one byte at a time      *)
(* (C07 color strings, C08 mode and stream names).                         *)
(*                                                                         *)
(* A machine has a control state and one number register; Step gives the   *)
(* next control state and what happens to the register (r' = r * m + a).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Byte == 0..255
IsUpper(b) == b >= 65 /\ b <= 90
Lower(b) == IF IsUpper(b) THEN b + 32 ELSE b
IsDigit(b) == b >= 48 /\ b <= 57
IsHex(b) == IsDigit(b) \/ (Lower(b) >= 97 /\ Lower(b) <= 102)
HexValue(b) == IF IsDigit(b) THEN b - 48 ELSE Lower(b) - 87

\* words as bytes
Black == <<98, 108, 97, 99, 107>>
Red == <<114, 101, 100>>
Green == <<103, 114, 101, 101, 110>>
Yellow == <<121, 101, 108, 108, 111, 119>>
Blue == <<98, 108, 117, 101>>
Magenta == <<109, 97, 103, 101, 110, 116, 97>>
Cyan == <<99, 121, 97, 110>>
White == <<119, 104, 105, 116, 101>>
Purple == <<112, 117, 114, 112, 108, 101>>
Bright == <<98, 114, 105, 103, 104, 116, 32>>
Base == <<Black, Red, Green, Yellow, Blue, Magenta, Cyan, White>>

\* <<word, what it parses to>>
ColorWords == {<<Base[k], k - 1>> : k \in 1..8} \cup {<<Bright \o Base[k], k + 7>> : k \in 1..8} \cup {<<Purple, 5>>}

Detect == <<100, 101, 116, 101, 99, 116>>
Always == <<97, 108, 119, 97, 121, 115>>
Never == <<110, 101, 118, 101, 114>>
Stdout == <<115, 116, 100, 111, 117, 116>>
Stderr == <<115, 116, 100, 101, 114, 114>>
ModeWords == {<<Detect, "Detect">>, <<Always, "Always">>, <<Never, "Never">>}
StreamWords == {<<Stdout, "Stdout">>, <<Stderr, "Stderr">>, <<Always, "AlwaysColor">>, <<Never, "NeverColor">>}

AllPrefixes(ws) == UNION {{SubSeq(w[1], 1, k) : k \in 0..Len(w[1])} : w \in ws}
ColorPrefixes == AllPrefixes(ColorWords)
ModePrefixes == AllPrefixes(ModeWords)
StreamPrefixes == AllPrefixes(StreamWords)

Keep == [m |-> 1, a |-> 0]
Dead == <<"dead">>
To(q) == [q |-> q, op |-> Keep]

(************************** words, ignoring case ***************************)
WordStart == <<"word", <<>>>>
WordStep(prefixes, q, b) ==
    IF q = Dead THEN To(Dead)
    ELSE LET p == Append(q[2], Lower(b)) IN IF p \in prefixes THEN To(<<"word", p>>) ELSE To(Dead)
WordResult(words, q) ==
    IF q # Dead /\ \E w \in words : w[1] = q[2]
    THEN <<"ok", (CHOOSE w \in words : w[1] = q[2])[2]>> ELSE <<"error">>

(******************************** colors ***********************************)
\* <<"dec", value, digits>>, <<"hash", number of bytes, all hex so far>>, <<"name", prefix>>
ColorStart == <<"name", <<>>>>

ColorStep(q, b) ==
    CASE q = ColorStart /\ IsDigit(b) -> To(<<"dec", b - 48, 1>>)
      [] q = ColorStart /\ b = 35 -> To(<<"hash", 0, TRUE>>)
      [] q[1] = "name" /\ ~(q = ColorStart /\ (IsDigit(b) \/ b = 35)) ->
             LET p == Append(q[2], b) IN IF p \in ColorPrefixes THEN To(<<"name", p>>) ELSE To(Dead)
      [] q[1] = "dec" -> IF IsDigit(b) /\ q[3] < 3 THEN To(<<"dec", q[2] * 10 + b - 48, q[3] + 1>>) ELSE To(Dead)
      [] q[1] = "hash" ->
             IF q[2] = 6 THEN To(Dead)
             ELSE IF IsHex(b) THEN [q |-> <<"hash", q[2] + 1, q[3]>>, op |-> [m |-> 16, a |-> HexValue(b)]]
             ELSE To(<<"hash", q[2] + 1, FALSE>>)
      [] q = Dead -> To(Dead)

Unknown == <<"error", "UnknownColor">>
ColorResult(q, r) ==
    CASE q[1] = "name" -> IF \E w \in ColorWords : w[1] = q[2]
                          THEN <<"ansi", (CHOOSE w \in ColorWords : w[1] = q[2])[2]>> ELSE Unknown
      [] q[1] = "dec" -> IF q[2] > 255 THEN <<"error", "U8Overflow">> ELSE <<"xterm", q[2]>>
      [] q[1] = "hash" -> IF q[2] \notin {1, 2, 6} THEN Unknown
                          ELSE IF ~q[3] THEN <<"error", "InvalidHexDigit">>
                          ELSE IF q[2] = 6 THEN <<"rgb", r \div 65536, (r \div 256) % 256, r % 256>>
                          ELSE <<"xterm", r>>
      [] q = Dead -> Unknown

(****************************** the machines *******************************)
Machines == {"color", "mode", "stream"}
Start(mc) == IF mc = "color" THEN ColorStart ELSE WordStart
Step(mc, q, b) == CASE mc = "color" -> ColorStep(q, b)
                    [] mc = "mode" -> WordStep(ModePrefixes, q, b)
                    [] mc = "stream" -> WordStep(StreamPrefixes, q, b)
Result(mc, q, r) == CASE mc = "color" -> ColorResult(q, r)
                      [] mc = "mode" -> WordResult(ModeWords, q)
                      [] mc = "stream" -> WordResult(StreamWords, q)

\* the whole text at once
RunFrom(mc, s) == FoldLeft(LAMBDA c, b : LET n == Step(mc, c[1], b) IN <<n.q, IF c[2] > 16777215 THEN 0 ELSE c[2] * n.op.m + n.op.a>>,
                           <<Start(mc), 0>>, s)
Parse(mc, s) == LET c == RunFrom(mc, s) IN Result(mc, c[1], c[2])
=============================================================================
