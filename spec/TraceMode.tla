------------------------------ MODULE TraceMode ------------------------------
(***************************************************************************)
(* Conformance: is every recorded history of the real library a behaviour  *)
(* of ColorMode?  TRACES is a JSON array of histories; a history is an     *)
(* array of events {o: operation, a: arguments, r: what the library        *)
(* returned}.  Every history is one chain of states; a chain that cannot   *)
(* be continued is a deadlock, i.e. a rejected trace.                      *)
(***************************************************************************)
EXTENDS ColorMode, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

PROP == IOEnv.PROP
VARIABLES tr, i
tvars == <<vars, tr, i>>

TraceInit == /\ InitSettings
             /\ support = [f \in Fds |-> 0]
             /\ env = [v \in EnvVars |-> "-"]
             /\ tr \in 1..Len(Traces)
             /\ i = 1

E == Traces[tr][i]
ToSet(s) == {s[k] : k \in 1..Len(s)}
More == i <= Len(Traces[tr])
IsEvent(o) == More /\ E.o = o /\ i' = i + 1 /\ UNCHANGED tr

TSetMode == IsEvent("SM") /\ SetMode(E.a[1]) /\ res' = E.r
TGetMode == IsEvent("GM") /\ GetMode /\ res' = E.r
TSetDefault == IsEvent("SD") /\ SetDefault(E.a[1]) /\ res' = E.r
TGetDefault == IsEvent("GD") /\ GetDefault /\ res' = E.r
TQuery == IsEvent("Q") /\ Query(E.a[1], ToSet(E.a[2])) /\ res' = E.r
TEnvRead == IsEvent("ER") /\ EnvRead /\ res' = E.r
TEnvSet == IsEvent("ES") /\ EnvSet /\ res' = E.r
TSetenv == IsEvent("SV") /\ Setenv(E.a[1], E.a[2]) /\ E.r = "ok"
\* what detection would find at this moment, as logged by the driver
TSnapshot == /\ IsEvent("SNAP")
             /\ support' = [f \in Fds |-> IF f = "Stdout" THEN E.a[1] ELSE E.a[2]]
             /\ res' = "ok" /\ UNCHANGED <<mode, dflt, cache, env>>
\* a formatting that fails or panics half-way changes nothing (C15)
TBad == IsEvent("BAD") /\ E.r = E.a[1] /\ UNCHANGED vars

Step == TSetMode \/ TGetMode \/ TSetDefault \/ TGetDefault \/ TQuery \/ TEnvRead
        \/ TEnvSet \/ TSetenv \/ TSnapshot \/ TBad
\* al: how often the library allocated.  Only the first detection of a stream may (C21)
Frugal == PROP = "C21" /\ E.o \notin {"ER", "ES", "BAD", "SNAP", "SV"} => E.al = 0 \/ cache' # cache
Done == ~More /\ UNCHANGED tvars
TraceNext == (Step /\ Frugal) \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TypeOKTrace == mode \in Modes /\ dflt \in Streams
=============================================================================
