------------------------------ MODULE ColorMode ------------------------------
(***************************************************************************)
(* When is styled text colored?  The process-wide coloring state of        *)
(* colorz: the global mode, the default stream, the detection caches of    *)
(* the two standard streams, and (as environment) what detection would     *)
(* find and the four environment variables.                                *)
(*                                                                         *)
(* One action per public operation (sequential view; SharedMode.tla gives  *)
(* the view of several threads, atomic access by atomic access).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Strip,      \* built with strip-colors
          Detection   \* "none" | "terminal" (std) | "level" (supports-color)

Modes == {"Detect", "Always", "Never"}
Fds == {"Stdout", "Stderr"}
Streams == Fds \cup {"AlwaysColor", "NeverColor"}
Kinds == {"Ansi", "Xterm", "Rgb", "NoColor"}
\* what detection finds: 0 nothing, 1 ANSI, 2 also 256 colors, 3 also RGB
\* (terminal detection only distinguishes 0 and 3)
Levels == IF Detection = "level" THEN 0..3 ELSE IF Detection = "terminal" THEN {0, 3} ELSE {0}
Unknown == 9          \* cache content before the first detection

EnvVars == {"NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR"}
\* "-" unset, "0" the value 0, anything else counts as set
Disabling(x) == x \in {"-", "0"}

VARIABLES mode, dflt,   \* the two global settings
          cache,        \* [Fds -> Levels \cup {Unknown}]
          support,      \* environment: [Fds -> Levels], what detection would find now
          env,          \* environment: [EnvVars -> STRING]
          res           \* what the operation just performed returned

state == <<mode, dflt, cache, support, env>>
vars == <<mode, dflt, cache, support, env, res>>

InitSettings == /\ mode = "Detect" /\ dflt = "AlwaysColor"
                /\ cache = [f \in Fds |-> Unknown]
                /\ res = "init"
Init == /\ InitSettings
        /\ support \in [Fds -> Levels]
        /\ env = [v \in EnvVars |-> "-"]

(***************************** pure definitions ****************************)
VisibleMode == IF Strip THEN "Never" ELSE mode

Needs == [k \in Kinds |-> CASE k = "NoColor" -> 0 [] k = "Ansi" -> 1 [] k = "Xterm" -> 2 [] k = "Rgb" -> 3]

Supports(level, kinds) ==
    IF Detection = "terminal" THEN level > 0 ELSE \A k \in kinds : Needs[k] <= level

\* "yes" | "no" | "Stdout" | "Stderr" (ask that stream)
Verdict(md, dflt_, stream) ==
    IF Strip THEN "no"
    ELSE IF md = "Always" THEN "yes"
    ELSE IF md = "Never" THEN "no"
    ELSE LET s == IF stream = "None" THEN dflt_ ELSE stream
         IN  CASE s = "AlwaysColor" -> "yes"
               [] s = "NeverColor" -> "no"
               [] s \in Fds -> IF Detection = "none" THEN "yes" ELSE s

EnvMode(e) == IF ~Disabling(e["NO_COLOR"]) THEN "Never"
              ELSE IF \E v \in EnvVars \ {"NO_COLOR"} : ~Disabling(e[v]) THEN "Always"
              ELSE "None"

(******************************** operations *******************************)
SetMode(m) == /\ mode' = IF Strip THEN mode ELSE m
              /\ res' = "ok" /\ UNCHANGED <<dflt, cache, support, env>>
GetMode == res' = VisibleMode /\ UNCHANGED state

SetDefault(s) == /\ dflt' = s
                 /\ res' = "ok" /\ UNCHANGED <<mode, cache, support, env>>
GetDefault == res' = dflt /\ UNCHANGED state

\* Should text with these color kinds be colored on this (optional) stream?
Query(stream, kinds) ==
    LET v == Verdict(mode, dflt, stream) IN
    IF v \in {"yes", "no"} THEN res' = v /\ UNCHANGED state
    ELSE LET level == IF cache[v] = Unknown THEN support[v] ELSE cache[v] IN
         /\ cache' = [cache EXCEPT ![v] = level]
         /\ res' = IF Supports(level, kinds) THEN "yes" ELSE "no"
         /\ UNCHANGED <<mode, dflt, support, env>>

EnvRead == res' = EnvMode(env) /\ UNCHANGED state
EnvSet == /\ mode' = IF Strip \/ EnvMode(env) = "None" THEN mode ELSE EnvMode(env)
          /\ res' = "ok" /\ UNCHANGED <<dflt, cache, support, env>>

\* environment
Redirect(f, l) == /\ support' = [support EXCEPT ![f] = l]
                  /\ res' = "ok" /\ UNCHANGED <<mode, dflt, cache, env>>
Setenv(v, x) == /\ env' = [env EXCEPT ![v] = x]
                /\ res' = "ok" /\ UNCHANGED <<mode, dflt, cache, support>>

-----------------------------------------------------------------------------
(********************************* properties ******************************)
TypeOK == /\ mode \in Modes /\ dflt \in Streams
          /\ cache \in [Fds -> Levels \cup {Unknown}]
          /\ support \in [Fds -> Levels]
          /\ DOMAIN env = EnvVars

\* once detected, a stream's answer never changes (C10)
CacheStable == [][\A f \in Fds : cache[f] # Unknown => cache'[f] = cache[f]]_vars
\* only a decision that falls to a stream detects it, and detects only that stream (C10)
DetectOwn == [][\A f \in Fds : cache'[f] # cache[f] =>
                  /\ cache'[f] = support[f]
                  /\ \A g \in Fds \ {f} : cache'[g] = cache[g]
                  /\ mode' = mode /\ dflt' = dflt]_vars
\* settings are independent (C09)
Independent == [][~(mode' # mode /\ dflt' # dflt)]_vars
\* stripped builds never color (C12)
StripNever == Strip => (VisibleMode = "Never" /\ \A s \in Streams \cup {"None"} : Verdict(mode, dflt, s) = "no")
\* the documented precedence list, read literally (C09)
Precedence ==
    \A s \in Streams \cup {"None"} :
      LET v == Verdict(mode, dflt, s)
          eff == IF s = "None" THEN dflt ELSE s
      IN  /\ (Strip => v = "no")
          /\ (~Strip /\ mode = "Always" => v = "yes")
          /\ (~Strip /\ mode = "Never" => v = "no")
          /\ (~Strip /\ mode = "Detect" /\ eff = "AlwaysColor" => v = "yes")
          /\ (~Strip /\ mode = "Detect" /\ eff = "NeverColor" => v = "no")
          /\ (~Strip /\ mode = "Detect" /\ eff \in Fds =>
                v = IF Detection = "none" THEN "yes" ELSE eff)
\* color support is monotone: whatever a level supports, a higher one does too
Monotone == \A k \in SUBSET Kinds : \A l, m \in Levels :
               l <= m /\ Supports(l, k) => Supports(m, k)
=============================================================================
