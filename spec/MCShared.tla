------------------------------ MODULE MCShared ------------------------------
(***************************************************************************)
(* SharedMode for a set of programs (JSON, from the check): every          *)
(* interleaving and every choice of what a read may return.  Final         *)
(* outcomes are written to OUTCOMES, to be compared with what the real     *)
(* library does.                                                           *)
(* A program: [sup |-> [out, err], th |-> sequence of sequences of         *)
(* operations], an operation [o, a]; a decision's a is a sequence of       *)
(* [s |-> stream, k |-> sequence of kinds].                                *)
(***************************************************************************)
EXTENDS SharedMode, Json, IOUtils, TLC, CSV

Programs == JsonDeserialize(IOEnv.PROGRAMS)

VARIABLES p, phase      \* thread 0 runs alone before (1) and after (3) the others (2)
mvars == <<shared, p, phase>>

ToSet(s) == {s[k] : k \in 1..Len(s)}
OpOf(o) == IF o.o = "D" THEN <<"D", [k \in 1..Len(o.a) |-> <<o.a[k].s, ToSet(o.a[k].k)>>]>>
           ELSE IF o.o \in {"SM", "SD"} THEN <<o.o, o.a[1]>> ELSE <<o.o>>
OpsOf(s) == [k \in 1..Len(s) |-> OpOf(s[k])]
P == Programs[p]

MCInit == /\ p \in 1..Len(Programs) /\ phase = 1
          /\ InitMemory
          /\ todo = [t \in Threads |-> IF t = 0 THEN OpsOf(P.before)
                                       ELSE IF t <= Len(P.th) THEN OpsOf(P.th[t]) ELSE <<>>]
          /\ support = [f \in Fds |-> P.sup[IF f = "Stdout" THEN 1 ELSE 2]]

RECURSIVE JoinAll(_)
JoinAll(S) == IF S = {} THEN None ELSE LET t == CHOOSE t \in S : TRUE IN Join(view[t], JoinAll(S \ {t}))

Fork == /\ phase = 1 /\ todo[0] = <<>> /\ phase' = 2
        /\ view' = [t \in Threads |-> view[0]] /\ known' = [t \in Threads |-> known[0]]
        /\ UNCHANGED <<todo, mem, frame, support, outcome, low, wrong>>
JoinThreads == /\ phase = 2 /\ \A t \in Threads : todo[t] = <<>>
               /\ phase' = 3
               /\ view' = [view EXCEPT ![0] = JoinAll(Threads)]
               /\ known' = [known EXCEPT ![0] = UNION {known[t] : t \in Threads}]
               /\ todo' = [todo EXCEPT ![0] = OpsOf(P.after)]
               /\ UNCHANGED <<mem, frame, support, outcome, low, wrong>>
MCNext == /\ UNCHANGED p
          /\ \/ \E t \in Threads : (t = 0 <=> phase # 2) /\ ThreadStep(t) /\ UNCHANGED phase
             \/ Fork \/ JoinThreads
MCSpec == MCInit /\ [][MCNext]_mvars

\* evaluated on every new state: records the outcomes of finished programs
Record == (phase = 3 /\ Finished) => CSVWrite("%1$s", <<ToJson(<<p, outcome>>)>>, IOEnv.OUTCOMES)
=============================================================================
