------------------------------ MODULE TraceLib ------------------------------
(* Batched trace validation.  The traces recorded from the real code are read  *)
(* from the file named by the environment variable TRACES, one JSON object per *)
(* line, [id, ev: <<event, ...>>, ...].  A trace specification has variables   *)
(* tr (which trace) and l (next event of it); it constrains its behaviours     *)
(* with Progress and reports in its POSTCONDITION how far every trace got: a   *)
(* trace is accepted iff its whole event sequence can be consumed.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)

Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

InitProgress == \A i \in 1..NTraces : TLCSet(i, 0)

(* to be used as a CONSTRAINT: records the furthest event reached and does not *)
(* explore a trace further once it is accepted                                 *)
ProgressOf(t, at) ==
    LET best == TLCGet(t)
    IN  /\ (at > best => TLCSet(t, at))
        /\ best <= Len(Traces[t].ev)

RECURSIVE JoinFrom(_, _)
JoinFrom(i, n) == IF i > n THEN "" ELSE ToString(TLCGet(i)) \o (IF i < n THEN "," ELSE "") \o JoinFrom(i + 1, n)
RECURSIVE Chunks(_, _)
Chunks(i, n) == IF i > n THEN TRUE
                ELSE /\ PrintT(<<"PROGRESS", JoinFrom(i, IF i + 99 < n THEN i + 99 ELSE n)>>)
                     /\ Chunks(i + 100, n)
Report == Chunks(1, NTraces)

SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
