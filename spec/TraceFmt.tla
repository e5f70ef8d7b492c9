------------------------------- MODULE TraceFmt -------------------------------
(***************************************************************************)
(* Is every recorded formatting of the real library a behaviour of Fmt?    *)
(* TRACES is a JSON array of traces; an event is a record with field o:    *)
(*   SUP a          what detection finds on stdout, stderr (already asked) *)
(*   begin ls q     formatting of a value wrapped in the layers ls starts; *)
(*                  a layer: st stream, k color kinds, op, cl the bytes of *)
(*                  its opening and closing sequence, d what the library   *)
(*                  said just before when asked whether to color it;       *)
(*                  q: trait and format options used                       *)
(*   W b ok         the destination accepted (rejected) these bytes        *)
(*   enter q        the value's own formatting is called                   *)
(*   emit b, emitted ok    the value writes b / is told the result         *)
(*   ret ok         the value's own formatting returns                     *)
(*   end ok         formatting of the styled value returns                 *)
(*   caught d       a panic was caught by the d-th layer's value (0: by    *)
(*                  the program)                                           *)
(*   SM, SD a       the value (or destination) changes a setting           *)
(*   base r fresh   all settings and decisions, as the library reports     *)
(*                  them; they must be as before unless fresh              *)
(* PROP selects the obligations:                                           *)
(*   C13 trait, options and bytes, for the decision the library reports    *)
(*   C14 decisions follow the settings at the begin of each layer, pairing *)
(*   C15 failures stop, are reported, and leave no trace                   *)
(***************************************************************************)
EXTENDS Fmt, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP

VARIABLES tr, i, base
tvars == <<vars, stack, tr, i, base>>

TInit == /\ InitSettings /\ support = [f \in Fds |-> 0] /\ env = [v \in EnvVars |-> "-"]
         /\ stack = <<>> /\ base = <<>> /\ tr \in 1..Len(Traces) /\ i = 1

E == Traces[tr][i]
More == i <= Len(Traces[tr])
Is(o) == More /\ E.o = o /\ i' = i + 1 /\ UNCHANGED tr
NoSettings == UNCHANGED <<mode, dflt, cache, support, env, res>>

TSup == /\ Is("SUP") /\ LET s == [f \in Fds |-> IF f = "Stdout" THEN E.a[1] ELSE E.a[2]] IN
             support' = s /\ cache' = s
        /\ UNCHANGED <<mode, dflt, env, res, stack>>

Layer(l) == <<IF PROP # "C14" THEN l.d ELSE Colored(l.st, ToSet(l.k)), l.op, l.cl>>
Req(q) == IF PROP = "C13" THEN q ELSE "any"
TBegin == Is("begin") /\ Begin([k \in 1..Len(E.ls) |-> Layer(E.ls[k])], Req(E.q)) /\ NoSettings
TEnter == Is("enter") /\ Enter(Req(E.q)) /\ NoSettings
TWrite == Is("W") /\ (IF E.ok THEN Accept(E.b) ELSE Reject(E.b)) /\ NoSettings
TEmit == Is("emit") /\ Emit(E.b) /\ NoSettings
TEmitted == Is("emitted") /\ Emitted(E.ok) /\ NoSettings
TRet == Is("ret") /\ Return(E.ok) /\ NoSettings
TEnd == Is("end") /\ End(E.ok) /\ NoSettings
TCaught == Is("caught") /\ Caught(E.d) /\ NoSettings

TSetMode == Is("SM") /\ SetMode(E.a) /\ UNCHANGED stack
TSetDefault == Is("SD") /\ SetDefault(E.a) /\ UNCHANGED stack
TBase == Is("base") /\ (E.fresh \/ base = E.r) /\ base' = E.r /\ NoSettings /\ UNCHANGED stack

Step == TBase \/ (UNCHANGED base /\ (TSup \/ TBegin \/ TEnter \/ TWrite \/ TEmit \/ TEmitted \/ TRet \/ TEnd \/ TCaught
        \/ TSetMode \/ TSetDefault))
\* a trace must also end properly
Done == ~More /\ stack = <<>> /\ UNCHANGED tvars
TNext == Step \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
