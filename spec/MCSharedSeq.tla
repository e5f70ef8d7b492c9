---------------------------- MODULE MCSharedSeq ----------------------------
(***************************************************************************)
(* With one thread, SharedMode (access by access) implements ColorMode     *)
(* (operation by operation): the two views of the coloring state are one   *)
(* specification.  Every sequence of up to MaxOps operations.              *)
(***************************************************************************)
EXTENDS SharedMode

CONSTANT MaxOps

Last(s) == s[Len(s)]
Result == IF outcome[1] = <<>> THEN "init"
          ELSE Last(outcome[1])[1]
Abs == INSTANCE ColorMode WITH mode <- Last(mem["mode"]).val, dflt <- Last(mem["dflt"]).val,
                               cache <- [f \in Fds |-> Last(mem[f]).val], support <- support,
                               env <- [v \in CM!EnvVars |-> "-"], res <- Result

SomeKinds == {{}, {"Ansi"}, {"Xterm", "NoColor"}, {"Rgb", "Ansi"}}
Ops == {<<"SM", m>> : m \in CM!Modes} \cup {<<"SD", s>> : s \in CM!Streams} \cup {<<"GM">>, <<"GD">>}
       \cup {<<"D", <<<<s, k>>>>>> : s \in CM!Streams \cup {"None"}, k \in SomeKinds}

SeqInit == /\ InitMemory /\ todo = [t \in Threads |-> <<>>] /\ support \in [Fds -> CM!Levels]
Issue == /\ todo[1] = <<>> /\ Len(outcome[1]) < MaxOps
         /\ \E o \in Ops : todo' = [todo EXCEPT ![1] = <<o>>]
         /\ UNCHANGED <<mem, view, frame, support, outcome, known, low, wrong>>
SeqSpec == SeqInit /\ [][Issue \/ ThreadStep(1)]_shared

AbsNext == \/ \E m \in CM!Modes : Abs!SetMode(m)
           \/ \E s \in CM!Streams : Abs!SetDefault(s)
           \/ Abs!GetMode \/ Abs!GetDefault
           \/ \E s \in CM!Streams \cup {"None"}, k \in SomeKinds : Abs!Query(s, k)
Implements == Abs!Init /\ [][AbsNext]_(Abs!vars)
=============================================================================
