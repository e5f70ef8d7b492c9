---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Validates recorded sessions of the real library: the bytes it wrote for *)
(* each opened, closed or reset span, consumed by the terminal machine.    *)
(* TRACES is a JSON array of traces, PROP selects the obligation.          *)
(* An event: [o: "open"/"close"/"clearall", st: style, b: bytes, plain,    *)
(*            al: allocations, ok]                                         *)
(***************************************************************************)
EXTENDS Sgr, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP

VARIABLES tr, i, term
vars == <<tr, i, term>>

Init == tr \in 1..Len(Traces) /\ i = 1 /\ term = DefaultAttrs

Style(x) == [fg |-> x.fg, bg |-> x.bg, ul |-> x.ul, eff |-> {x.eff[k] : k \in 1..Len(x.eff)}]

Tolerant(t) == ~t.sgr.bad /\ t.lex = "ground"

Step ==
    /\ i <= Len(Traces[tr])
    \* (quantified rather than defined: TLC evaluates the bytes once)
    /\ \E e \in {Traces[tr][i]} : \E t \in {Bytes(TermStart(term), e.b)} :
       LET st == IF e.o = "clearall" THEN PlainStyle ELSE Style(e.st)
       IN /\ PROP = "C01" => (e.o = "open" => t.sgr.a = Applied(st, term) /\ e.ok)
          /\ PROP = "C02" => (e.o = "close" => t.sgr.a = Cleared(st, term) /\ e.ok)
          /\ PROP = "C03" => /\ Clean(t)
                             /\ e.o # "clearall" => /\ NoReset(t)
                                                    /\ e.plain = IsPlain(st)
                                                    /\ (e.o = "open" => (e.b = <<>> <=> e.plain))
                                                    /\ (e.o = "close" => (e.plain => e.b = <<>>))
                             /\ e.o = "clearall" => t.sgr.a = DefaultAttrs
          /\ PROP = "C21" => e.al = 0
          \* continue from what really is on the terminal
          /\ term' = t.sgr.a
    /\ i' = i + 1 /\ tr' = tr

Done == i > Len(Traces[tr]) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
