-------------------------- MODULE FittingSequence --------------------------
(* A fitting sequence: the listed steps are performed in order.  A fitting   *)
(* step replaces the values of the free parameters by its best fit and adds  *)
(* one entry to the results; a settings step only changes settings; a data   *)
(* step only changes the selected bands.  Values are tracked by provenance:  *)
(* where a value comes from decides which earlier value it has to equal.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  P,          \* parameters
  SetP,       \* parameters that can be set to a value
  Fixed0,     \* parameters held fixed at the start
  Bands,      \* imaging bands
  Samplers,   \* fitting steps
  DataSteps,  \* data steps
  Depth

INIT == 0
FREE == -1
Chain == {"emcee", "MCMC", "zeus"}    \* keep their samples for the next one
Name(s) == IF s = "MCMC" THEN "emcee" ELSE IF s = "nested_sampling" THEN "dynesty" ELSE s

VARIABLES
  val,      \* P -> provenance: INIT, 1..99 a value set by the user, 1000+n result of step n
  fix,      \* P -> FREE or the provenance of the value it is held at
  band,     \* Bands -> [step kind -> number of the last step that changed it]
  results,  \* names of the entries of the results
  cols,     \* parameters of the kept samples, {}: none
  n,        \* steps performed
  err,      \* the last step was refused
  hist
vars == <<val, fix, band, results, cols, n, err, hist>>

Free == {p \in P : fix[p] = FREE}

Init ==
  /\ val = [p \in P |-> INIT]
  /\ fix = [p \in P |-> IF p \in Fixed0 THEN INIT ELSE FREE]
  /\ band = [b \in Bands |-> [k \in DataSteps |-> 0]]
  /\ results = <<>> /\ cols = {} /\ n = 0 /\ err = FALSE /\ hist = <<>>

\* samples of a previous chain start the next one, unless told otherwise; they have to fit
Refused(s, reuse) == s \in Chain /\ reuse /\ cols # {} /\ cols # Free

Possible(s) == Cardinality(Free) >= (IF s \in {"PSO", "SIMPLEX", "emcee", "MCMC"} THEN 1 ELSE 2)

Fit(s, reuse) ==
  /\ err' = Refused(s, reuse)
  /\ IF err' THEN UNCHANGED <<val, results, cols>>
     ELSE /\ val' = [p \in P |-> IF p \in Free THEN 1000 + n' ELSE fix[p]]
          /\ results' = Append(results, Name(s))
          /\ cols' = IF s \in Chain THEN Free ELSE cols
  /\ UNCHANGED <<fix, band>>

Restart ==
  /\ val' = [p \in P |-> INIT] /\ err' = FALSE
  /\ UNCHANGED <<fix, band, results, cols>>

\* hold the parameters of A at their current value, release those of R
Settings(A, R) ==
  /\ fix' = [p \in P |-> IF p \in R THEN FREE ELSE IF p \in A THEN val[p] ELSE fix[p]]
  /\ err' = FALSE
  /\ UNCHANGED <<val, band, results, cols>>

SetValue(p, v) ==
  /\ val' = [val EXCEPT ![p] = v] /\ err' = FALSE
  /\ UNCHANGED <<fix, band, results, cols>>

Data(k, S) ==
  /\ band' = [b \in Bands |-> IF b \in S THEN [band[b] EXCEPT ![k] = n'] ELSE band[b]]
  /\ err' = FALSE
  /\ UNCHANGED <<val, fix, results, cols>>

Rnd(S) == {RandomElement(S)}
Step ==
  \E w \in Rnd(1 .. 9) : \E kind \in {CASE w <= 3 -> "fit" [] w = 4 -> "restart" [] w \in {5, 6} -> "settings" [] w = 7 -> "set" [] OTHER -> "data"} :
    LET log(a) == hist' = Append(hist, [act |-> a, val |-> val', fix |-> fix', band |-> band', results |-> results', err |-> err'])
    IN
    /\ n' = n + 1
    /\ \/ /\ kind = "fit"
          /\ \E s \in Rnd(Samplers), r \in Rnd(BOOLEAN) :
               IF Possible(s) THEN Fit(s, r) /\ log([op |-> "fit", s |-> s, reuse |-> r])
               ELSE Restart /\ log([op |-> "restart"])
       \/ (kind = "restart" \/ (kind = "data" /\ DataSteps = {})) /\ Restart /\ log([op |-> "restart"])
       \/ /\ kind = "settings"
          /\ \E A \in Rnd(SUBSET P), R \in Rnd(SUBSET P) : Settings(A, R) /\ log([op |-> "settings", add |-> A, rem |-> R])
       \/ /\ kind = "set"
          /\ \E p \in Rnd(SetP), v \in Rnd(1 .. 4) : SetValue(p, v) /\ log([op |-> "set", p |-> p, v |-> v])
       \/ /\ kind = "data" /\ DataSteps # {}
          /\ \E k \in Rnd(DataSteps), S \in Rnd(SUBSET Bands) : Data(k, S) /\ log([op |-> "data", k |-> k, s |-> S])

Next == Len(hist) < Depth /\ Step

--------------------------------------------------------------------------
TypeOK ==
  /\ \A p \in P : val[p] \in (0 .. 4) \cup (1000 .. 1000 + n) /\ fix[p] \in {FREE} \cup (0 .. 4) \cup (1000 .. 1000 + n)
\* one entry per fitting step that was performed, in their order
OneEntryPerFit ==
  results = [i \in 1 .. Len(SelectSeq(hist, LAMBDA h : h.act.op = "fit" /\ ~h.err)) |->
               Name(SelectSeq(hist, LAMBDA h : h.act.op = "fit" /\ ~h.err)[i].act.s)]
\* a step that is not a fit never changes a value, except the ones it names
OnlyFitsMove ==
  \A i \in 2 .. Len(hist) : hist[i].act.op \in {"settings", "data"} => hist[i].val = hist[i-1].val
\* data steps change selected bands only
DataOnly ==
  \A i \in 2 .. Len(hist) : hist[i].act.op # "data" => hist[i].band = hist[i-1].band
\* right after a fit, held parameters have the value they are held at
HeldHold ==
  \A i \in 1 .. Len(hist) : hist[i].act.op = "fit" /\ ~hist[i].err => \A p \in P : hist[i].fix[p] # FREE => hist[i].val[p] = hist[i].fix[p]
RefusedChangesNothing ==
  \A i \in 2 .. Len(hist) : hist[i].err => hist[i].val = hist[i-1].val /\ hist[i].results = hist[i-1].results
Emit == Len(hist) < Depth \/ PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
