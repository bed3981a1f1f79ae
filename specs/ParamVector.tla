---------------------------- MODULE ParamVector ----------------------------
(* The layout of the sampled parameter vector.                              *)
(*                                                                          *)
(* A model is a sequence of slots: scalar or vector-valued parameters of    *)
(* components.  A choice of fixed slots (plus the slots the linear solver   *)
(* takes care of) determines the vector: the walk over the slots appends    *)
(* the values of each sampled slot, and the reverse walk reads them back.   *)
(* The walk is modelled step by step (one slot per step) for every choice   *)
(* of fixed and logarithmic slots; the end states are emitted as the        *)
(* expected layout that the code has to reproduce.                          *)
EXTENDS Integers, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS
  Width,      \* sequence: number of scalars of each slot
  Linear,     \* slots solved linearly (never sampled while the linear solver is on)
  Struct,     \* slots that always have to be fixed (e.g. the order of a basis set)
  Optional,   \* slots the user may fix
  Loggable,   \* slots that may be sampled in log space
  MaxLog,
  LinFlags,   \* explored settings of the linear solver
  Samples     \* 0: all subsets of Optional; otherwise that many random subsets

Slots == DOMAIN Width
VARIABLES lin, fixed, logs, phase, i, vec, pos, dec
vars == <<lin, fixed, logs, phase, i, vec, pos, dec>>

Held == fixed \cup Struct \cup (IF lin THEN Linear ELSE {})
Sampled(s) == s \notin Held

Subsets == IF Samples = 0 THEN SUBSET Optional
           ELSE {RandomSubset(RandomElement(0..Cardinality(Optional)), Optional) : k \in 1..Samples}
LogSubsets == {L \in SUBSET Loggable : Cardinality(L) <= MaxLog}

Init ==
  /\ lin \in LinFlags
  /\ fixed \in Subsets
  /\ logs \in LogSubsets
  /\ phase = "encode" /\ i = 1 /\ vec = <<>> /\ pos = 0
  /\ dec = [s \in Slots |-> <<>>]

\* what the vector holds for scalar j of slot s (log of a slot that is fixed has no effect)
Entry(s, j) == [s |-> s, j |-> j, log |-> (s \in logs)]

Encode ==
  /\ phase = "encode" /\ i <= Len(Width)
  /\ vec' = IF Sampled(i) THEN vec \o [j \in 1..Width[i] |-> Entry(i, j)] ELSE vec
  /\ i' = i + 1
  /\ UNCHANGED <<lin, fixed, logs, phase, pos, dec>>

Turn ==
  /\ phase = "encode" /\ i > Len(Width)
  /\ phase' = "decode" /\ i' = 1 /\ pos' = 0
  /\ UNCHANGED <<lin, fixed, logs, vec, dec>>

Decode ==
  /\ phase = "decode" /\ i <= Len(Width)
  /\ IF Sampled(i)
     THEN /\ dec' = [dec EXCEPT ![i] = SubSeq(vec, pos + 1, pos + Width[i])]
          /\ pos' = pos + Width[i]
     ELSE /\ UNCHANGED <<dec, pos>>
  /\ i' = i + 1
  /\ UNCHANGED <<lin, fixed, logs, phase, vec>>

Done == phase = "decode" /\ i > Len(Width) /\ phase' = "done"
        /\ UNCHANGED <<lin, fixed, logs, i, vec, pos, dec>>

Next == Encode \/ Turn \/ Decode \/ Done

RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)

Final == phase = "done"
RoundTrip == Final => \A s \in Slots :
  dec[s] = IF Sampled(s) THEN [j \in 1..Width[s] |-> Entry(s, j)] ELSE <<>>
AllRead == Final => pos = Len(vec)
Count == Final => Len(vec) = Sum({s \in Slots : Sampled(s)}, Width)
OwnPositions == \A a, b \in DOMAIN vec : (vec[a].s = vec[b].s /\ vec[a].j = vec[b].j) => a = b
Emit == Final => PrintT("@@" \o ToJson([lin |-> lin, fixed |-> fixed, logs |-> logs,
   n |-> Len(vec), held |-> Held, sampled |-> {s \in Slots : Sampled(s)}, vec |-> vec]))
=============================================================================
