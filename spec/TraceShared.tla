----------------------------- MODULE TraceShared -----------------------------
(***************************************************************************)
(* Conformance of recorded concurrent histories of the real library with   *)
(* what C19 and C20 promise (not with how SharedMode reaches it).          *)
(*                                                                         *)
(* The settings are a coherent and causal memory: a write takes effect at  *)
(* one moment between call and return; a read returns a write that is not  *)
(* older than any its thread made or saw, or that was made or seen by the  *)
(* writer of any it saw.  A decision reads both settings once each, in     *)
(* either order, and otherwise only depends on what the streams support.   *)
(*                                                                         *)
(* A history: [n, sup, ev]; an event [t, e: "c" | "r" | "fork" | "join",   *)
(* o, a, r].  Thread 0 runs while the others do not.  Moments at which     *)
(* writes take effect are not recorded: TLC finds them.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, CSV

CONSTANTS Strip, Detection
CM == INSTANCE ColorMode WITH mode <- "Detect", dflt <- "AlwaysColor", cache <- 0, support <- 0, env <- 0, res <- 0
Fds == CM!Fds
Settings == {"mode", "dflt"}

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, mem, view, op
tvars == <<tr, i, mem, view, op>>

T == Traces[tr]
E == T.ev[i]
All == 0..T.n
ToSet(s) == {s[k] : k \in 1..Len(s)}
Max(a, b) == IF a > b THEN a ELSE b
Join(v, w) == [c \in Settings |-> Max(v[c], w[c])]
One == [c \in Settings |-> 1]
NoOp == [o |-> "-", a |-> <<>>, done |-> TRUE]

TraceInit == /\ tr \in 1..Len(Traces) /\ i = 1
             /\ mem = [c \in Settings |-> <<[val |-> IF c = "mode" THEN "Detect" ELSE "AlwaysColor", view |-> One]>>]
             /\ view = [t \in All |-> One]
             /\ op = [t \in All |-> NoOp]

More == i <= Len(T.ev)
Event(e) == More /\ E.e = e /\ i' = i + 1 /\ UNCHANGED tr

Call == /\ Event("c") /\ op[E.t] = NoOp
        /\ op' = [op EXCEPT ![E.t] = [o |-> E.o, a |-> E.a, done |-> E.o \notin {"SM", "SD"} \/ (Strip /\ E.o = "SM")]]
        /\ UNCHANGED <<mem, view>>

\* the moment a write takes effect
Effect == \E t \in All :
    /\ More /\ ~op[t].done
    /\ LET c == IF op[t].o = "SM" THEN "mode" ELSE "dflt"
           w == [view[t] EXCEPT ![c] = Len(mem[c]) + 1]
       IN  /\ mem' = [mem EXCEPT ![c] = Append(@, [val |-> op[t].a[1], view |-> w])]
           /\ view' = [view EXCEPT ![t] = w]
    /\ op' = [op EXCEPT ![t].done = TRUE]
    /\ UNCHANGED <<tr, i>>

\* views after reading message k of cell c
After(v, c, k) == Join([v EXCEPT ![c] = k], mem[c][k].view)
Reads(v, c) == {k \in v[c]..Len(mem[c]) : TRUE}

\* one layer's decision: the possible views after it gave this answer
Kinds(l) == ToSet(l.k)
Support(f) == T.sup[IF f = "Stdout" THEN 1 ELSE 2]
Yes(m, d, l) == LET v == CM!Verdict(m, d, l.s) IN IF v \in Fds THEN CM!Supports(Support(v), Kinds(l)) ELSE v = "yes"
NeedsDefault(m, l) == ~Strip /\ m = "Detect" /\ l.s = "None"
Decisions(v, l, yes) ==
    IF Strip THEN (IF yes THEN {} ELSE {v}) ELSE
    LET m(k) == mem["mode"][k].val
        d(k) == mem["dflt"][k].val
    IN  {After(v, "mode", k) : k \in {k \in Reads(v, "mode") : ~NeedsDefault(m(k), l) /\ Yes(m(k), "AlwaysColor", l) = yes}}
        \cup UNION {LET w == After(v, "mode", k) IN
                    {After(w, "dflt", j) : j \in {j \in Reads(w, "dflt") : Yes(m(k), d(j), l) = yes}}
                    : k \in {k \in Reads(v, "mode") : NeedsDefault(m(k), l)}}
        \cup UNION {LET w == After(v, "dflt", j) IN
                    {After(w, "mode", k) : k \in {k \in Reads(w, "mode") : NeedsDefault(m(k), l) /\ Yes(m(k), d(j), l) = yes}}
                    : j \in Reads(v, "dflt")}
RECURSIVE Layers(_, _, _)
\* all views possible after these layers gave these answers, starting from one of these views
Layers(vs, ls, rs) == IF ls = <<>> THEN vs
                      ELSE Layers(UNION {Decisions(v, Head(ls), Head(rs) = "yes") : v \in vs}, Tail(ls), Tail(rs))

Return == /\ Event("r") /\ op[E.t] # NoOp /\ op[E.t].done
          /\ op' = [op EXCEPT ![E.t] = NoOp]
          /\ UNCHANGED mem
          /\ LET o == op[E.t]
                 v == view[E.t]
             IN  CASE o.o \in {"SM", "SD"} -> E.r = "ok" /\ UNCHANGED view
                   [] o.o \in {"GM", "GD"} ->
                        LET c == IF o.o = "GM" THEN "mode" ELSE "dflt" IN
                        IF Strip /\ o.o = "GM" THEN E.r = "Never" /\ UNCHANGED view
                        ELSE \E k \in Reads(v, c) : mem[c][k].val = E.r /\ view' = [view EXCEPT ![E.t] = After(v, c, k)]
                   [] o.o = "D" ->
                        /\ Len(E.r) = Len(o.a)
                        /\ \A k \in 1..Len(E.r) : E.r[k] \in {"yes", "no"}
                        /\ \E w \in Layers({v}, o.a, E.r) : view' = [view EXCEPT ![E.t] = w]

RECURSIVE JoinAll(_)
JoinAll(S) == IF S = {} THEN One ELSE LET t == CHOOSE t \in S : TRUE IN Join(view[t], JoinAll(S \ {t}))
Quiet == \A t \in All : op[t] = NoOp
Fork == Event("fork") /\ Quiet /\ view' = [t \in All |-> Join(view[t], view[0])] /\ UNCHANGED <<mem, op>>
JoinThreads == Event("join") /\ Quiet /\ view' = [view EXCEPT ![0] = JoinAll(All)] /\ UNCHANGED <<mem, op>>

TraceNext == Call \/ Effect \/ Return \/ Fork \/ JoinThreads
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* A history is accepted if one of its branches consumes all of it: every
   accepted one is written to ACCEPTED (with DIAG every position reached). *)
Accept == (~More \/ "DIAG" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(<<tr, i>>)>>, IOEnv.ACCEPTED)
=============================================================================
