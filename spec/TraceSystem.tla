----------------------------- MODULE TraceSystem -----------------------------
(***************************************************************************)
(* Validates recorded runs of programs that use the real library as a      *)
(* whole.  An event:                                                       *)
(*   SUP a          what detection finds on stdout, stderr                 *)
(*   ask a          a program asks whether such a layer is colored; r      *)
(*   SM a, SD a     a program (or a value being printed) changes a setting *)
(*   SV a, ES       an environment variable is set; settings from it       *)
(*   GM r, GD r     settings as the library reports them                   *)
(*   print f        a print to terminal f, or into a string, begins        *)
(*   begin cs       a styled value, built by the calls cs, starts to be    *)
(*                  formatted; end: and is done; fail: has failed          *)
(*   text b         a value shows text                                     *)
(*   paste k        a value shows the k-th string made                     *)
(*   printed b      the latest print is over; b is all it wrote            *)
(*   span f k cs b  the opening ("open") or closing ("close") escape of a  *)
(*                  style, or the full reset ("reset"), was sent           *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

VARIABLES tr, i
tvars == <<svars, tr, i>>

Traces == JsonDeserialize(IOEnv.TRACES)
TInit == /\ InitSettings /\ SInit
         /\ support = [f \in Fds |-> 0] /\ env = [v \in EnvVars |-> "-"]
         /\ tr \in 1..Len(Traces) /\ i = 1

Stay == UNCHANGED screen
\* after what was sent the terminal is in the ground state and nothing was malformed
Fine(t) == ~t.sgr.bad /\ t.lex = "ground"

Event(e) ==
    CASE e.o = "SUP" -> /\ support' = [f \in Fds |-> IF f = "Stdout" THEN e.a[1] ELSE e.a[2]]
                        /\ res' = "ok" /\ UNCHANGED <<mode, dflt, cache, env>> /\ Stay
      [] e.o = "ask" -> \E l \in {StyleOf(e.cs)} : Query(e.st, KindsOf(l)) /\ res' = e.r /\ Stay
      [] e.o = "SM" -> ChooseMode(e.a)
      [] e.o = "SD" -> ChooseStream(e.a)
      [] e.o = "SV" -> Setenv(e.a[1], e.a[2]) /\ Stay
      [] e.o = "ES" -> AskEnvironment
      [] e.o = "GM" -> GetMode /\ res' = e.r /\ Stay
      [] e.o = "GD" -> GetDefault /\ res' = e.r /\ Stay
      [] e.o = "print" -> PrintTo(e.f)
      [] e.o = "begin" -> Begin(LayersOf(e.cs))
      [] e.o = "text" -> Text(e.b)
      [] e.o = "paste" -> Paste(e.k)
      [] e.o = "end" -> End
      [] e.o = "fail" -> Fail
      [] e.o = "printed" -> /\ Finish
                            /\ \E t \in {Bytes(TermStart(Top.start), e.b)} :
                                  Fine(t) /\ NoReset(t) /\ t.text = Top.cells /\ t.sgr.a = Top.a
      [] e.o = "span" ->
           \E t \in {Bytes(TermStart(term[e.f]), e.b)} :
             /\ Fine(t) /\ t.text = <<>>
             /\ CASE e.k = "open" -> OpenSpan(e.f, Bare(StyleOf(e.cs)))
                  [] e.k = "close" -> CloseSpan(e.f, Bare(StyleOf(e.cs)))
                  [] e.k = "reset" -> ResetSpan(e.f)
             /\ t.sgr.a = term'[e.f]

TStep == i <= Len(Traces[tr]) /\ Event(Traces[tr][i]) /\ i' = i + 1 /\ tr' = tr
\* a run must not end in the middle of a print
Done == i > Len(Traces[tr]) /\ prints = <<>> /\ UNCHANGED tvars
TNext == TStep \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
