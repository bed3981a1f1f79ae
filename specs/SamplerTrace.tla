--------------------------- MODULE SamplerTrace ---------------------------
(* What a sampler may report, judged on traces recorded from real runs.     *)
(*                                                                          *)
(* A trace is a sequence of events                                          *)
(*   start   the likelihood of the point the run starts from                *)
(*   eval    the likelihood has been evaluated: value v, in or out of the   *)
(*           limits of the parameters                                       *)
(*   sample  a sample is reported with value v; j is the event at which     *)
(*           this position was evaluated (0: never)                         *)
(*   best    a best position is reported, likewise; it has to be the best   *)
(*           of everything evaluated ("all"), of the samples reported       *)
(*           before ("samples"), or no worse than the start ("start")       *)
(*   count   number of samples reported                                     *)
(* Values are the ranks of the likelihood values.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, i, top, rtop, num, from, out, bad
vars == <<t, i, top, rtop, num, from, out, bad>>
Max(a, b) == IF a > b THEN a ELSE b
Trace == Traces[t].events
Init == t \in DOMAIN Traces /\ i = 0 /\ top = -1 /\ rtop = -1 /\ num = 0 /\ from = -1 /\ out = 0 /\ bad = ""
Known(e) == e.j > 0 /\ e.j <= i /\ Trace[e.j].k \in {"eval", "start"} /\ Trace[e.j].v = e.v
Why(e) ==
  CASE e.k = "eval" -> IF e.inside = 0 /\ (Traces[t].bounded = 1 \/ out < Traces[t].first) THEN "a position outside the limits is evaluated" ELSE ""
    [] e.k = "start" -> ""
    [] e.k = "sample" -> IF e.j = 0 THEN "a sample that was never evaluated is reported" ELSE IF ~Known(e) THEN "a sample is reported with the likelihood of another position" ELSE ""
    [] e.k = "best" -> IF e.j = 0 THEN "the best fit was never evaluated"
                       ELSE IF ~Known(e) THEN "the best fit is reported with the likelihood of another position"
                       ELSE IF e.of = "all" /\ e.v # top THEN "the best fit is not the best position evaluated"
                       ELSE IF e.of = "samples" /\ e.v # rtop THEN "the best fit is not the best sample"
                       ELSE IF e.of = "start" /\ e.v < from THEN "the best fit is worse than the start" ELSE ""
    [] e.k = "count" -> IF num # e.v THEN "number of samples" ELSE ""
Step ==
  /\ bad = "" /\ i < Len(Trace)
  /\ LET e == Trace[i + 1] IN
     /\ bad' = Why(e)
     /\ top' = IF e.k \in {"eval", "start"} THEN Max(top, e.v) ELSE top
     /\ rtop' = IF e.k = "sample" THEN Max(rtop, e.v) ELSE rtop
     /\ num' = IF e.k = "sample" THEN num + 1 ELSE num
     /\ from' = IF e.k = "start" THEN e.v ELSE from
     /\ out' = IF e.k = "eval" THEN out + 1 ELSE out
  /\ i' = i + 1 /\ UNCHANGED t
Next == Step
---------------------------------------------------------------------------
Sane == rtop <= top /\ num <= i /\ out <= i
Emit == ~(bad # "" \/ i = Len(Trace)) \/ PrintT("@@" \o ToJson([t |-> t, i |-> i, bad |-> bad, num |-> num]))
=============================================================================
