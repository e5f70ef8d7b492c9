--------------------------------- MODULE Fmt ---------------------------------
(***************************************************************************)
(* Formatting of (nested) styled values, write by write.                   *)
(*                                                                         *)
(* One stack entry per styled value being formatted.  A layer decides once *)
(* when it begins, writes its opening sequence if colored, hands over to   *)
(* the value with the same trait and the same format options, passes the   *)
(* value's writes through, and writes its closing sequence iff it wrote    *)
(* the opening one and nothing failed.  The destination may reject writes, *)
(* the value may fail, panic, change the global settings or format other   *)
(* styled values; a value may also swallow the failure of something it     *)
(* wrote and go on.                                                        *)
(*                                                                         *)
(* The global settings are those of ColorMode.tla.                         *)
(***************************************************************************)
EXTENDS ColorMode, SequencesExt

VARIABLE stack

\* A layer: ph    "open" writing the opening sequence, "body" the value is running,
\*                "close" writing the closing sequence, "dead" failed
\*          op    what was (to be) written as opening: <<>> if not colored
\*          cl    what is to be written as closing
\*          todo  what must still be written in this phase
\*          err   a write of the value was rejected, the value has not been told yet
\*          req   trait and format options, as passed by the caller
Top == stack[Len(stack)]
WithTop(t) == [stack EXCEPT ![Len(stack)] = t]
Pop == SubSeq(stack, 1, Len(stack) - 1)

Running == stack # <<>> /\ Top.ph = "body"
Idle == stack = <<>> \/ (Running /\ Top.todo = <<>> /\ ~Top.err)

\* Is something with these color kinds and this stream colored right now?
Colored(stream, kinds) ==
    LET v == Verdict(mode, dflt, stream) IN
    IF v = "yes" THEN TRUE
    ELSE IF v = "no" THEN FALSE
    ELSE Supports(IF cache[v] = Unknown THEN support[v] ELSE cache[v], kinds)
Detects(stream) == LET v == Verdict(mode, dflt, stream) IN IF v \in Fds THEN {v} ELSE {}

\* A value wrapped in several layers at once (outermost first) starts being
\* formatted; every layer is <<colored, opening, closing>>.
RECURSIVE Opening(_), Closing(_)
Opening(ls) == IF ls = <<>> THEN <<>> ELSE (IF ls[1][1] THEN ls[1][2] ELSE <<>>) \o Opening(Tail(ls))
Closing(ls) == IF ls = <<>> THEN <<>> ELSE Closing(Tail(ls)) \o (IF ls[1][1] THEN ls[1][3] ELSE <<>>)

Push(ls, req) ==
    stack' = Append(stack, [ph |-> "open", op |-> Opening(ls), cl |-> Closing(ls), todo |-> Opening(ls),
                            err |-> FALSE, req |-> req])
Begin(ls, req) == Idle /\ Push(ls, req)

\* the destination accepts / rejects a write
Accept(b) == /\ stack # <<>> /\ IsPrefix(b, Top.todo)
             /\ stack' = WithTop([Top EXCEPT !.todo = SubSeq(@, Len(b) + 1, Len(@))])
Reject(b) == /\ stack # <<>> /\ IsPrefix(b, Top.todo) /\ b # <<>>
             /\ stack' = WithTop(IF Top.ph = "body" THEN [Top EXCEPT !.todo = <<>>, !.err = TRUE]
                                 ELSE [Top EXCEPT !.todo = <<>>, !.ph = "dead"])

\* the value itself
Enter(req) == /\ stack # <<>> /\ Top.ph = "open" /\ Top.todo = <<>> /\ Top.req = req
              /\ stack' = WithTop([Top EXCEPT !.ph = "body"])
Emit(b) == /\ Running /\ Idle
           /\ stack' = WithTop([Top EXCEPT !.todo = b])
Emitted(ok) == /\ Running /\ Top.todo = <<>> /\ Top.err = ~ok
               /\ stack' = WithTop([Top EXCEPT !.err = FALSE])
Return(ok) == /\ Running /\ Idle
              /\ stack' = WithTop(IF ok THEN [Top EXCEPT !.ph = "close", !.todo = Top.cl] ELSE [Top EXCEPT !.ph = "dead"])

\* formatting of the layer reports its result
End(ok) == /\ stack # <<>> /\ Top.todo = <<>>
           /\ Top.ph = IF ok THEN "close" ELSE "dead"
           /\ stack' = Pop

\* a panic unwinds to someone who catches it
Caught(depth) == /\ depth <= Len(stack)
                 /\ depth > 0 => stack[depth].ph = "body"
                 /\ stack' = SubSeq(stack, 1, depth)
=============================================================================
