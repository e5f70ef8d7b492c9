----------------------------- MODULE MCColorMode -----------------------------
(***************************************************************************)
(* Exhaustive instances of ColorMode.  Every transition is exported (one   *)
(* JSON line) and replayed on the real library by the conformance driver.  *)
(***************************************************************************)
EXTENDS ColorMode, Json, TLC, CSV, IOUtils

CONSTANTS QueryKinds,   \* the sets of color kinds asked for
          QueryStreams, \* the per-value streams asked for
          DfltStreams,  \* the default streams set
          SupLevels,    \* what detection may find
          Redirects,    \* may what detection would find change?
          EnvValues,    \* values of environment variables explored
          WithEnv       \* explore the environment variables

VARIABLE op            \* the operation just performed (exported with the edge)
mcvars == <<vars, op>>

MCInit == Init /\ support \in [Fds -> SupLevels] /\ op = <<"init">>
Do(name, args, A) == A /\ op' = <<name>> \o args

MCNext ==
    \/ \E m \in Modes : Do("SM", <<m>>, SetMode(m))
    \/ Do("GM", <<>>, GetMode)
    \/ \E s \in DfltStreams : Do("SD", <<s>>, SetDefault(s))
    \/ Do("GD", <<>>, GetDefault)
    \/ \E s \in QueryStreams, k \in QueryKinds : Do("Q", <<s, k>>, Query(s, k))
    \/ Redirects /\ \E f \in Fds, l \in SupLevels : l # support[f] /\ Do("R", <<f, l>>, Redirect(f, l))
    \/ WithEnv /\ Do("ER", <<>>, EnvRead)
    \/ WithEnv /\ Do("ES", <<>>, EnvSet)
    \/ WithEnv /\ \E v \in EnvVars, x \in EnvValues : x # env[v] /\ Do("SV", <<v, x>>, Setenv(v, x))
MCSpec == MCInit /\ [][MCNext]_mcvars

View == state          \* op and res are observations, not state

AllStreams == Streams \cup {"None"}
FixedStreams == {"AlwaysColor", "NeverColor"}
FixedOrNone == FixedStreams \cup {"None"}
AnsiOnly == {{"Ansi"}}
KindsTerminal == {{}, {"Ansi"}, {"Rgb", "NoColor"}}
KindsLevel == {{}, {"NoColor"}, {"Ansi"}, {"Xterm"}, {"Rgb"}, {"Ansi", "Xterm"}, {"NoColor", "Rgb", "Ansi"}}

Out == IOEnv.EDGES
St == <<mode, dflt, cache["Stdout"], cache["Stderr"], support["Stdout"], support["Stderr"],
        env["NO_COLOR"], env["ALWAYS_COLOR"], env["CLICOLOR_FORCE"], env["FORCE_COLOR"]>>
St1 == <<mode', dflt', cache'["Stdout"], cache'["Stderr"], support'["Stdout"], support'["Stderr"],
        env'["NO_COLOR"], env'["ALWAYS_COLOR"], env'["CLICOLOR_FORCE"], env'["FORCE_COLOR"]>>
Export == CSVWrite("%1$s", <<ToJson(<<St, op', res', St1>>)>>, Out)
=============================================================================
