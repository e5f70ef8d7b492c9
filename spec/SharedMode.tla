----------------------------- MODULE SharedMode -----------------------------
(***************************************************************************)
(* The coloring state shared by threads, atomic access by atomic access.   *)
(*                                                                         *)
(* Four shared cells: the two settings and the two detection caches.  The  *)
(* memory is a release/acquire memory in the style of view-based models of *)
(* C11: every cell is the sequence of its writes ("messages"), every       *)
(* thread has a view (the oldest message of every cell it may still read), *)
(* a release write carries its writer's view, an acquire read joins the    *)
(* view it reads.  The orderings of the accesses are constants, so the     *)
(* specification can also say which of them are needed.                    *)
(*                                                                         *)
(* A program gives every thread a sequence of operations.  Operations:     *)
(*   <<"SM", mode>> <<"SD", stream>> <<"GM">> <<"GD">>                     *)
(*   <<"D", <<layer, ...>>>>  decisions made one after the other by one    *)
(*       call (one: should_color or a styled value; several: nested values)*)
(*       where a layer is <<stream or "None", set of kinds>>               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Strip, Detection,         \* as in ColorMode
          Threads,
          SetOrd, GetOrd,           \* "rel" | "rlx" and "acq" | "rlx": the settings
          CacheStore, CacheLoad     \* the same for the caches

CM == INSTANCE ColorMode WITH mode <- "Detect", dflt <- "AlwaysColor", cache <- 0, support <- 0, env <- 0, res <- 0

Fds == CM!Fds
Settings == {"mode", "dflt"}
Cells == Settings \cup Fds

VARIABLES todo,     \* [Threads -> Seq(operation)]
          mem,      \* [Cells -> Seq([val, view, past])]
          view,     \* [Threads -> [Cells -> Nat]]
          frame,    \* [Threads -> what the thread is in the middle of]
          support,  \* [Fds -> level]
          outcome,  \* [Threads -> Seq(results)]
          \* history variables, used by the properties only
          known,    \* [Threads -> set of <<cell, index>>]: writes made or seen, and all those before them
          low,      \* [Threads -> [Cells -> Nat]]: what was known when the current operation began
          wrong     \* a property was violated: its name

shared == <<todo, mem, view, frame, support, outcome, known, low, wrong>>

Initial(c) == CASE c = "mode" -> "Detect" [] c = "dflt" -> "AlwaysColor" [] OTHER -> CM!Unknown
Idle == [at |-> "idle", k |-> 1, fd |-> "-", level |-> 0, got |-> <<>>]
None == [c \in Cells |-> 1]

InitMemory == /\ mem = [c \in Cells |-> <<[val |-> Initial(c), view |-> None, past |-> {}]>>]
              /\ view = [t \in Threads |-> None]
              /\ frame = [t \in Threads |-> Idle]
              /\ outcome = [t \in Threads |-> <<>>]
              /\ known = [t \in Threads |-> {<<c, 1>> : c \in Cells}]
              /\ low = [t \in Threads |-> None]
              /\ wrong = {}

Max(a, b) == IF a > b THEN a ELSE b
Join(v, w) == [c \in Cells |-> Max(v[c], w[c])]
Latest(S, c) == CHOOSE n \in 0..100 : (n = 0 \/ <<c, n>> \in S) /\ \A m \in 0..100 : <<c, m>> \in S => m <= n
KnownView(t) == [c \in Cells |-> Latest(known[t], c)]

(********************************** memory *********************************)
\* thread t reads message i of cell c; what it learns
Read(t, c, i, ord) ==
    /\ i \in view[t][c]..Len(mem[c])
    /\ view' = [view EXCEPT ![t] = Join([@ EXCEPT ![c] = i], IF ord = "acq" THEN mem[c][i].view ELSE None)]
    /\ known' = [known EXCEPT ![t] = @ \cup {<<c, i>>} \cup mem[c][i].past]
    /\ UNCHANGED mem
\* never older than a write already made or seen, or made or seen by the writer of one seen (C19)
Older(t, c, i) == c \in Settings /\ i < Latest(known[t], c)

Write(t, c, v, ord) ==
    LET n == Len(mem[c]) + 1
        w == [view[t] EXCEPT ![c] = n]
        k == known[t] \cup {<<c, n>>}
    IN  /\ view' = [view EXCEPT ![t] = w]
        /\ known' = [known EXCEPT ![t] = k]
        /\ mem' = [mem EXCEPT ![c] = Append(@, [val |-> v, past |-> k,
                     view |-> IF ord = "rel" THEN w ELSE [None EXCEPT ![c] = n]])]

(******************************** operations *******************************)
Op(t) == Head(todo[t])
Starting(t) == frame[t].at = "idle" /\ todo[t] # <<>>
\* the operation of t began with this access
Begins(t) == low' = [low EXCEPT ![t] = IF frame[t].at = "idle" THEN KnownView(t) ELSE @]

Finish(t, r) == /\ todo' = [todo EXCEPT ![t] = Tail(@)]
                /\ frame' = [frame EXCEPT ![t] = Idle]
                /\ outcome' = [outcome EXCEPT ![t] = Append(@, r)]
Stay == UNCHANGED <<todo, outcome>>

Set(t) == /\ Starting(t) /\ Op(t)[1] \in {"SM", "SD"} /\ Begins(t)
          /\ IF Strip /\ Op(t)[1] = "SM" THEN UNCHANGED <<mem, view, known>>
             ELSE Write(t, IF Op(t)[1] = "SM" THEN "mode" ELSE "dflt", Op(t)[2], SetOrd)
          /\ Finish(t, <<"ok">>) /\ UNCHANGED <<support, wrong>>

Get(t, c, i) == /\ Starting(t) /\ Op(t)[1] = (IF c = "mode" THEN "GM" ELSE "GD") /\ Begins(t)
                /\ Read(t, c, i, GetOrd)
                /\ wrong' = IF Older(t, c, i) THEN wrong \cup {"older"} ELSE wrong
                /\ Finish(t, <<IF Strip /\ c = "mode" THEN "Never" ELSE mem[c][i].val>>)
                /\ UNCHANGED support

(* Is an answer one that the settings give?  Each setting the answer depends
   on must have been current at some point during the call. *)
Lows(t) == IF frame[t].at = "idle" THEN KnownView(t) ELSE low[t]
Answer(m, d, layer) ==
    LET v == CM!Verdict(m, d, layer[1]) IN
    IF v \in Fds THEN CM!Supports(support[v], layer[2]) ELSE v = "yes"
Explained(t, layer, yes) ==
    \E i \in Lows(t)["mode"]..Len(mem["mode"]), j \in Lows(t)["dflt"]..Len(mem["dflt"]) :
        Answer(mem["mode"][i].val, mem["dflt"][j].val, layer) = yes

\* the layer being decided is answered
Layers(t) == Op(t)[2]
Layer(t) == Layers(t)[frame[t].k]
Decided(t, yes, older) ==
    LET got == Append(frame[t].got, IF yes THEN "yes" ELSE "no") IN
    /\ IF frame[t].k = Len(Layers(t)) THEN Finish(t, got)
       ELSE frame' = [frame EXCEPT ![t] = [Idle EXCEPT !.at = "mode", !.k = frame[t].k + 1, !.got = got]] /\ Stay
    /\ wrong' = wrong \cup (IF older THEN {"older"} ELSE {})
                      \cup (IF Explained(t, Layer(t), yes) THEN {} ELSE {"unexplained"})
Goto(t, at, fd, level, older) ==
    /\ frame' = [frame EXCEPT ![t] = [@ EXCEPT !.at = at, !.fd = fd, !.level = level]]
    /\ wrong' = IF older THEN wrong \cup {"older"} ELSE wrong
    /\ Stay

\* the stream is known
Resolve(t, s, older) ==
    CASE s = "AlwaysColor" -> Decided(t, TRUE, older)
      [] s = "NeverColor" -> Decided(t, FALSE, older)
      [] s \in Fds -> IF Detection = "none" THEN Decided(t, TRUE, older) ELSE Goto(t, "cache", s, 0, older)

DecideMode(t, i) ==
    /\ \/ Starting(t) /\ Op(t)[1] = "D"
       \/ frame[t].at = "mode"
    /\ Begins(t)
    /\ IF Strip THEN i = 1 /\ Decided(t, FALSE, FALSE) /\ UNCHANGED <<mem, view, known>>
       ELSE /\ Read(t, "mode", i, GetOrd)
            /\ LET m == mem["mode"][i].val
                   old == Older(t, "mode", i)
               IN  IF m = "Always" THEN Decided(t, TRUE, old)
                   ELSE IF m = "Never" THEN Decided(t, FALSE, old)
                   ELSE IF Layer(t)[1] # "None" THEN Resolve(t, Layer(t)[1], old)
                   ELSE Goto(t, "dflt", "-", 0, old)
    /\ UNCHANGED support

DecideDefault(t, i) ==
    /\ frame[t].at = "dflt"
    /\ Read(t, "dflt", i, GetOrd)
    /\ Resolve(t, mem["dflt"][i].val, Older(t, "dflt", i))
    /\ UNCHANGED <<support, low>>

DecideCache(t, i) ==
    /\ frame[t].at = "cache"
    /\ LET f == frame[t].fd IN
       /\ Read(t, f, i, CacheLoad)
       /\ IF mem[f][i].val = CM!Unknown THEN Goto(t, "detect", f, 0, FALSE)
          ELSE Decided(t, CM!Supports(mem[f][i].val, Layer(t)[2]), FALSE)
    /\ UNCHANGED <<support, low>>

Detect(t) == /\ frame[t].at = "detect"
             /\ Goto(t, "store", frame[t].fd, support[frame[t].fd], FALSE)
             /\ UNCHANGED <<mem, view, known, support, low>>

StoreCache(t) == /\ frame[t].at = "store"
                 /\ Write(t, frame[t].fd, frame[t].level, CacheStore)
                 /\ Decided(t, CM!Supports(frame[t].level, Layer(t)[2]), FALSE)
                 /\ UNCHANGED <<support, low>>

ThreadStep(t) == \/ Set(t)
                 \/ \E c \in Settings : \E i \in 1..Len(mem[c]) : Get(t, c, i)
                 \/ \E i \in 1..Len(mem["mode"]) : DecideMode(t, i)
                 \/ \E i \in 1..Len(mem["dflt"]) : DecideDefault(t, i)
                 \/ \E i \in 1..10 : frame[t].fd \in Fds /\ i <= Len(mem[frame[t].fd]) /\ DecideCache(t, i)
                 \/ Detect(t) \/ StoreCache(t)

Finished == \A t \in Threads : todo[t] = <<>>

-----------------------------------------------------------------------------
(********************************* properties ******************************)
\* C19: a thread never reads a setting older than it must know
NeverOlder == "older" \notin wrong
\* C20: every decision follows from settings that were current during the call
DecisionsExplained == "unexplained" \notin wrong
\* C20: the caches hold nothing or the truth
CachesRight == \A f \in Fds : \A i \in 2..Len(mem[f]) : mem[f][i].val = support[f]
\* C19: reads return the initial value or one that was set
TypeOK == /\ \A i \in 1..Len(mem["mode"]) : mem["mode"][i].val \in CM!Modes
          /\ \A i \in 1..Len(mem["dflt"]) : mem["dflt"][i].val \in CM!Streams
          /\ \A t \in Threads, c \in Cells : view[t][c] \in 1..Len(mem[c])
\* C19: one operation writes at most one setting, and only the one it names
OneSetting == [][/\ Cardinality({c \in Cells : mem'[c] # mem[c]}) <= 1
                 /\ \A c \in Cells : SubSeq(mem'[c], 1, Len(mem[c])) = mem[c]]_shared
\* views only grow
Coherent == [][\A t \in Threads, c \in Cells : view'[t][c] >= view[t][c]]_shared
=============================================================================
