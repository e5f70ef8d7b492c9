------------------------------- MODULE MCParse -------------------------------
(***************************************************************************)
(* Explores the control states of the parsers; exports every state and     *)
(* every transition that does not reject.  Checks what the property says   *)
(* in another way: a text parses exactly if it is one of the listed forms. *)
(***************************************************************************)
EXTENDS Parse, Json, CSV, IOUtils, TLC

VARIABLES mc, q, text, r
vars == <<mc, q, text, r>>
Init == mc \in Machines /\ q = Start(mc) /\ text = <<>> /\ r = 0

\* a representative per class of bytes in the explored texts; transitions are exported for all bytes
Next == \E b \in Byte :
           LET n == Step(mc, q, b) IN
             /\ n.q # q /\ n.q # Dead
             /\ q' = n.q /\ text' = Append(text, b) /\ r' = r * n.op.m + n.op.a
             /\ UNCHANGED mc
View == <<mc, q>>

\* the property, stated directly on the text
HexText(s) == \A k \in 1..Len(s) : IsHex(s[k])
DecText(s) == \A k \in 1..Len(s) : IsDigit(s[k])
RECURSIVE Val(_, _)
Val(base, s) == IF s = <<>> THEN 0 ELSE Val(base, Front(s)) * base + HexValue(Last(s))
Direct(s) ==
    IF \E w \in ColorWords : w[1] = s THEN <<"ansi", (CHOOSE w \in ColorWords : w[1] = s)[2]>>
    ELSE IF s # <<>> /\ DecText(s) /\ Len(s) <= 3
         THEN IF Val(10, s) <= 255 THEN <<"xterm", Val(10, s)>> ELSE <<"error", "U8Overflow">>
    ELSE IF s # <<>> /\ s[1] = 35 /\ Len(s) \in {2, 3, 7}
         THEN IF ~HexText(Tail(s)) THEN <<"error", "InvalidHexDigit">>
              ELSE IF Len(s) = 7 THEN <<"rgb", Val(16, SubSeq(s, 2, 3)), Val(16, SubSeq(s, 4, 5)), Val(16, SubSeq(s, 6, 7))>>
              ELSE <<"xterm", Val(16, Tail(s))>>
    ELSE <<"error", "UnknownColor">>
LowerText(s) == [k \in 1..Len(s) |-> Lower(s[k])]
DirectWord(ws, s) == IF \E w \in ws : w[1] = LowerText(s)
                     THEN <<"ok", (CHOOSE w \in ws : w[1] = LowerText(s))[2]>> ELSE <<"error">>
AgreesWithDirect ==
    Result(mc, q, r) = CASE mc = "color" -> Direct(text)
                         [] mc = "mode" -> DirectWord(ModeWords, text)
                         [] mc = "stream" -> DirectWord(StreamWords, text)
\* one byte more, any byte
OneMore == \A b \in Byte : LET n == Step(mc, q, b) IN
              Result(mc, n.q, IF r > 16777215 THEN 0 ELSE r * n.op.m + n.op.a) =
                CASE mc = "color" -> Direct(Append(text, b))
                  [] mc = "mode" -> DirectWord(ModeWords, Append(text, b))
                  [] mc = "stream" -> DirectWord(StreamWords, Append(text, b))

Classes == {<<Step(mc, q, b), {c \in Byte : Step(mc, q, c) = Step(mc, q, b)}>> : b \in {c \in Byte : Step(mc, q, c).q # Dead}}
\* results with the register left symbolic
Symbolic == IF mc = "color" /\ q[1] = "hash" /\ q[3] /\ q[2] \in {1, 2, 6}
            THEN IF q[2] = 6 THEN <<"rgb">> ELSE <<"xterm">> ELSE Result(mc, q, r)
Export == CSVWrite("%1$s", <<ToJson([mc |-> mc, q |-> ToString(q), res |-> Symbolic, start |-> q = Start(mc),
                                     next |-> {<<ToString(c[1].q), c[1].op.m, c[1].op.a, c[2]>> : c \in Classes}])>>, IOEnv.OUT)
Dumped == Export
=============================================================================
