-------------------------------- MODULE MCFmt --------------------------------
(***************************************************************************)
(* Exhaustive bounded exploration of Fmt: every program of at most         *)
(* MaxSteps steps that a value can execute while being formatted, with     *)
(* every choice of failing steps.  Complete behaviours are exported and    *)
(* replayed on the real library.                                           *)
(*                                                                         *)
(* Output is abstracted to tokens: <<"o", n>> / <<"c", n>> the opening and *)
(* closing sequence of the layer begun by step n, <<"t", n>> the text      *)
(* written by step n.                                                      *)
(***************************************************************************)
EXTENDS Fmt, Json, CSV, IOUtils, TLC

CONSTANTS MaxSteps, MaxDepth, MaxFaults, MaxBegins,
          ChangeModes, ChangeStreams,  \* what values may set while being formatted
          LayerStreams,                \* the streams of layers
          WithPanic                    \* values may panic (the caller of the whole formatting catches it)

VARIABLES script,  \* the steps so far
          out,     \* the tokens written
          armed,   \* the destination rejects the next write
          ids,     \* ids of the layers on the stack
          dec,     \* what every begun layer decided: sequence of <<n, colored>>
          ended,   \* <<n, result>> of every layer that ended
          quiet,   \* nothing more may be written as long as failures are propagated
          start    \* initial settings
mvars == <<vars, stack, script, out, armed, ids, dec, ended, quiet, start>>

MInit == /\ InitSettings /\ env = [v \in EnvVars |-> "-"] /\ support = [f \in Fds |-> 0]
         /\ stack = <<>> /\ script = <<>> /\ out = <<>> /\ armed = FALSE /\ ids = <<>>
         /\ dec = <<>> /\ ended = <<>> /\ quiet = FALSE
         /\ start = <<mode, dflt>>
\* any settings can be current when formatting starts
Prepare == \E m \in Modes, s \in {"AlwaysColor", "NeverColor"} :
    /\ script = <<>> /\ start = <<"Detect", "AlwaysColor">> /\ <<m, s>> # start
    /\ mode' = m /\ dflt' = s /\ start' = <<m, s>>
    /\ UNCHANGED <<cache, support, env, res, stack, script, out, armed, ids, dec, ended, quiet>>

Req == <<"Display", <<>>>>
N == Len(script) + 1
Room == Len(script) < MaxSteps
Faults == Cardinality({k \in 1..Len(script) : script[k][1] = "!"})
FaultChoice == IF Faults < MaxFaults THEN BOOLEAN ELSE {FALSE}
Step(x, f) == script' = Append(script, IF f THEN <<"!", x[1], x[2]>> ELSE <<"", x[1], x[2]>>)
NoSettings == UNCHANGED <<mode, dflt, cache, support, env, res>>

Active == Idle /\ ~armed

Begins(s) == \E f \in FaultChoice :
    /\ Active /\ Room /\ Len(stack) < MaxDepth
    /\ Len(dec) < MaxBegins
    /\ (stack = <<>> => script = <<>>)
    /\ LET on == Colored(s, {"Rgb"}) IN
         /\ f => on
         /\ Begin(<<<<on, <<<<"o", N>>>>, <<<<"c", N>>>>>>>>, Req)
         /\ dec' = Append(dec, <<N, on>>)
    /\ Step(<<"B", s>>, f) /\ armed' = f /\ ids' = Append(ids, N)
    /\ quiet' = FALSE
    /\ NoSettings /\ UNCHANGED <<out, ended, start>>

Texts == \E f \in FaultChoice :
    /\ Active /\ Room /\ stack # <<>> /\ Emit(<<<<"t", N>>>>)
    /\ Step(<<"T", "">>, f) /\ armed' = f /\ quiet' = FALSE
    /\ NoSettings /\ UNCHANGED <<out, ids, dec, ended, start>>

Modes1 == \E m \in ChangeModes \ {mode} :
    /\ Active /\ Room /\ stack # <<>> /\ SetMode(m)
    /\ Step(<<"M", m>>, FALSE)
    /\ UNCHANGED <<stack, out, armed, ids, dec, ended, quiet, start>>
Streams1 == \E s \in ChangeStreams \ {dflt} :
    /\ Active /\ Room /\ stack # <<>> /\ SetDefault(s)
    /\ Step(<<"D", s>>, FALSE)
    /\ UNCHANGED <<stack, out, armed, ids, dec, ended, quiet, start>>

\* returning is always possible
Returns == \E ok \in BOOLEAN, f \in FaultChoice :
    /\ Active /\ stack # <<>>
    /\ ~ok => (MaxFaults > 0 /\ (quiet \/ Faults < MaxFaults)) /\ ~f
    /\ f => Top.cl # <<>>
    /\ Return(ok)
    /\ Step(<<IF ok THEN "O" ELSE "X", "">>, f) /\ armed' = f
    /\ quiet' = IF ok THEN FALSE ELSE TRUE
    /\ NoSettings /\ UNCHANGED <<out, ids, dec, ended, start>>

Panics ==
    /\ WithPanic /\ Active /\ stack # <<>> /\ Faults < MaxFaults /\ Room
    /\ Caught(0) /\ ids' = <<>>
    /\ Step(<<"P", "">>, FALSE)
    /\ NoSettings /\ UNCHANGED <<out, armed, dec, ended, quiet, start>>

\* what follows without a choice
Writes == /\ stack # <<>> /\ Top.todo # <<>>
          /\ LET b == <<Head(Top.todo)>> IN
               IF armed THEN Reject(b) /\ armed' = FALSE /\ quiet' = TRUE /\ UNCHANGED out
               ELSE Accept(b) /\ out' = out \o b /\ UNCHANGED <<armed, quiet>>
          /\ NoSettings /\ UNCHANGED <<script, ids, dec, ended, start>>
Enters == /\ Enter(Req) /\ NoSettings /\ UNCHANGED <<script, out, armed, ids, dec, ended, quiet, start>>
EndsWrite == /\ Running /\ Top.err /\ Emitted(FALSE)
             /\ NoSettings /\ UNCHANGED <<script, out, armed, ids, dec, ended, quiet, start>>
Ends == \E ok \in BOOLEAN :
          /\ End(ok)
          /\ ended' = Append(ended, <<ids[Len(ids)], ok>>)
          /\ ids' = SubSeq(ids, 1, Len(ids) - 1)
          /\ NoSettings /\ UNCHANGED <<script, out, armed, dec, quiet, start>>

MNext == Prepare \/ (\E s \in LayerStreams : Begins(s)) \/ Texts \/ Modes1 \/ Streams1 \/ Returns \/ Panics
         \/ Writes \/ Enters \/ EndsWrite \/ Ends
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
Has(x, n) == \E k \in 1..Len(out) : out[k] = <<x, n>>
Pos(x, n) == CHOOSE k \in 1..Len(out) : out[k] = <<x, n>>
Complete == stack = <<>> /\ script # <<>>

\* C14: a layer that ended well closed iff it opened, and opened iff it was
\* colored when it began; one that failed did not close
Paired == \A k \in 1..Len(ended) :
    LET n == ended[k][1] on == \E d \in 1..Len(dec) : dec[d] = <<n, TRUE>> IN
      /\ (ended[k][2] => Has("o", n) = on /\ Has("c", n) = on)
      /\ (~ended[k][2] => ~Has("c", n))
      /\ (Has("o", n) => on)
\* C14: layers never overlap
Nested == \A m, n \in {dec[d][1] : d \in 1..Len(dec)} :
    (m # n /\ Has("c", m) /\ Has("c", n) /\ Has("o", m) /\ Has("o", n) /\ Pos("o", m) < Pos("o", n)) =>
      (Pos("c", m) < Pos("o", n) \/ Pos("c", n) < Pos("c", m))
\* C15: while a failure is propagated, nothing is written
Stops == [][(quiet /\ quiet') => out' = out]_mvars
\* ... and it is reported all the way up
Reported == (Complete /\ quiet /\ script[Len(script)][2] # "P") => ended[Len(ended)][2] = FALSE
\* C15: failing changes no setting
Untouched == [][(\E ok \in BOOLEAN : Return(ok)) \/ Ends \/ Panics => mode' = mode /\ dflt' = dflt /\ cache' = cache]_mvars

(******************* export of the complete behaviours **********************)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o (IF Len(ss) > 1 THEN " " \o Join(Tail(ss)) ELSE "")
Text == LET st(x) == x[1] \o x[2] \o x[3]
            tok(x) == x[1] \o ToString(x[2])
            en(x) == ToString(x[1]) \o (IF x[2] THEN "+" ELSE "-")
        IN  Join(start) \o "|" \o Join([k \in 1..Len(script) |-> st(script[k])])
            \o "|" \o Join([k \in 1..Len(out) |-> tok(out[k])])
            \o "|" \o Join([k \in 1..Len(ended) |-> en(ended[k])])
            \o "|" \o Join(<<mode, dflt>>)
Out == IOEnv.EDGES
Export == Complete => CSVWrite("%1$s", <<Text>>, Out)
=============================================================================
