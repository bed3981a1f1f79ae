--------------------------- MODULE UpdateManager ---------------------------
(* The parameter-management state machine behind the fitting sequence.      *)
(*                                                                          *)
(* A model has a set P of scalar parameters.  At any time each of them has  *)
(* a current value, is either free or held at a fixed value, and carries a  *)
(* lower bound, an upper bound and a search width.  The settings evolve by  *)
(* the documented steps of the workflow; every step changes exactly what it *)
(* says and nothing else, and nothing the user handed in is altered.        *)
EXTENDS Integers, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS
  P,          \* all parameters (strings)
  Special,    \* subset of P: special parameters (fixed without a value; keep a value already fixed)
  LimitP,     \* parameters whose bounds can be changed by a step
  SigmaP,     \* parameters whose search width can be changed by a step
  SetP,       \* parameters whose value can be set by a step
  Lens,       \* subset of P: lens-model parameters
  Comp,       \* [Lens -> component index]
  Bands,      \* sequence of sets of lens component indices seen by each imaging band
  V,          \* values (integers)
  Init0, Fixed0,   \* [P -> V], [P -> V \cup {FREE}]
  LimV,       \* values of bounds and widths
  MaxMulti,   \* how many parameters one settings step may touch
  Depth,      \* length of emitted behaviours (simulation)
  Ops         \* which kinds of steps are explored

FREE == 999
NONE == 998

VARIABLES val, fixed, low, up, sig, act, hist
state == [val |-> val, fixed |-> fixed, low |-> low, up |-> up, sig |-> sig]
vars == <<val, fixed, low, up, sig, act, hist>>

Init ==
  /\ val = Init0 /\ fixed = Fixed0
  /\ low = [p \in P |-> -1] /\ up = [p \in P |-> 5] /\ sig = [p \in P |-> 1]
  /\ act = [op |-> "init"] /\ hist = <<>>

LensParamsOf(S) == {p \in Lens : \E b \in S : Comp[p] \in Bands[b]}

\* one settings step: hold the parameters of A (at a given value or at their current value),
\* then release those of R
ApplyAdd(f, A) ==
  [p \in P |-> IF p \notin DOMAIN A THEN f[p]
               ELSE IF p \in Special THEN (IF f[p] = FREE THEN val[p] ELSE f[p])
               ELSE IF A[p] = NONE THEN val[p] ELSE A[p]]
Settings(A, R) ==
  /\ fixed' = [p \in P |-> IF p \in R THEN FREE ELSE ApplyAdd(fixed, A)[p]]
  /\ act' = [op |-> "settings", add |-> [p \in DOMAIN A |-> A[p]], rem |-> R]
  /\ UNCHANGED <<val, low, up, sig>>

\* several values may be set by one step
SetValue(A) ==
  /\ DOMAIN A \subseteq SetP
  /\ val' = [p \in P |-> IF p \in DOMAIN A THEN A[p] ELSE val[p]]
  /\ act' = [op |-> "set", a |-> A]
  /\ UNCHANGED <<fixed, low, up, sig>>

Restart ==
  /\ val' = Init0
  /\ act' = [op |-> "restart"]
  /\ UNCHANGED <<fixed, low, up, sig>>

\* a fitting step proposes values for the free parameters; the fixed ones take their fixed value
FitResult(w) ==
  /\ val' = [p \in P |-> IF fixed[p] = FREE THEN w[p] ELSE fixed[p]]
  /\ act' = [op |-> "result", w |-> w]
  /\ UNCHANGED <<fixed, low, up, sig>>

Over(f, A) == [p \in P |-> IF p \in DOMAIN A THEN A[p] ELSE f[p]]
SetLimit(which, A) ==
  /\ \/ which = "low" /\ DOMAIN A \subseteq LimitP /\ low' = Over(low, A) /\ UNCHANGED <<up, sig>>
     \/ which = "up"  /\ DOMAIN A \subseteq LimitP /\ up'  = Over(up, A)  /\ UNCHANGED <<low, sig>>
     \/ which = "sig" /\ DOMAIN A \subseteq SigmaP /\ sig' = Over(sig, A) /\ UNCHANGED <<low, up>>
  /\ act' = [op |-> "limit", which |-> which, a |-> A]
  /\ UNCHANGED <<val, fixed>>

KeepFrames(S) ==
  /\ fixed' = [p \in P |-> IF p \in LensParamsOf(S) THEN val[p] ELSE fixed[p]]
  /\ act' = [op |-> "keep", s |-> S]
  /\ UNCHANGED <<val, low, up, sig>>

UndoFrames(S) ==
  /\ fixed' = [p \in P |-> IF p \in LensParamsOf(S) THEN Fixed0[p] ELSE fixed[p]]
  /\ act' = [op |-> "undo", s |-> S]
  /\ UNCHANGED <<val, low, up, sig>>

\* bands that are computed get their initial setting back; the lens models of all other bands are
\* held at the current value (a lens model shared with a band that is not computed is held)
FixNotComputed(S) ==
  /\ fixed' = [p \in P |-> IF p \in LensParamsOf(DOMAIN Bands \ S) THEN val[p]
                           ELSE IF p \in LensParamsOf(S) THEN Fixed0[p]
                           ELSE fixed[p]]
  /\ act' = [op |-> "fnc", s |-> S]
  /\ UNCHANGED <<val, low, up, sig>>

SmallSubsets(S, n) == {T \in SUBSET S : Cardinality(T) <= n}

Step ==
  \/ "settings" \in Ops /\ \E T \in SmallSubsets(P, MaxMulti), R \in SmallSubsets(P, MaxMulti) :
       /\ T \cup R # {}
       /\ \E A \in [T -> V \cup {NONE}] : Settings(A, R)
  \/ "set" \in Ops /\ \E T \in SmallSubsets(SetP, MaxMulti) \ {{}} : \E A \in [T -> V] : SetValue(A)
  \/ Restart
  \/ "result" \in Ops /\ \E w \in [P -> V] : FitResult(w)
  \/ "limit" \in Ops /\ \E which \in {"low", "up", "sig"}, T \in SmallSubsets(P, MaxMulti) \ {{}} : \E A \in [T -> LimV] : SetLimit(which, A)
  \/ "frames" \in Ops /\ \E S \in SUBSET DOMAIN Bands : S # {} /\ (KeepFrames(S) \/ UndoFrames(S))
  \/ "frames" \in Ops /\ \E S \in SUBSET DOMAIN Bands : FixNotComputed(S)

Next == Step /\ UNCHANGED hist

\* larger configurations are explored by random simulation: one random instance of a random action
RandomFn(S, T) == [x \in S |-> RandomElement(T)]
\* (bound by \E over a singleton so that one random choice is made per step)
SimStep ==
  \/ \E T \in {RandomSubset(RandomElement(0..MaxMulti), P)}, R \in {RandomSubset(RandomElement(0..MaxMulti), P)} :
       \E A \in {RandomFn(T, V \cup {NONE})} : Settings(A, R)
  \/ \E T \in {RandomSubset(RandomElement(1..MaxMulti), SetP)} : \E A \in {RandomFn(T, V)} : SetValue(A)
  \/ Restart
  \/ \E w \in {RandomFn(P, V)} : FitResult(w)
  \/ \E which \in {RandomElement({"low", "up", "sig"})} :
       \E T \in {RandomSubset(RandomElement(1..MaxMulti), IF which = "sig" THEN SigmaP ELSE LimitP)} :
         \E A \in {RandomFn(T, LimV)} : SetLimit(which, A)
  \/ \E S \in {RandomElement(SUBSET DOMAIN Bands)} : KeepFrames(S) \/ UndoFrames(S) \/ FixNotComputed(S)
SimNext == SimStep /\ hist' = Append(hist, [act |-> act', post |-> state'])

--------------------------------------------------------------------------
TypeOK ==
  /\ val \in [P -> V] /\ fixed \in [P -> V \cup {FREE}]
  /\ DOMAIN low = P /\ DOMAIN up = P /\ DOMAIN sig = P

\* after a fit the fixed parameters hold exactly their fixed value
FixedWins == act.op = "result" => \A p \in P : fixed[p] # FREE => val[p] = fixed[p]
\* holding a frame never changes the current model
HoldKeepsModel == [][act'.op \in {"settings", "keep", "undo", "fnc", "limit"} => val' = val]_vars
\* a frame that is not computed is held at the model it had at that moment
FncHolds == [][act'.op = "fnc" => \A p \in LensParamsOf(DOMAIN Bands \ act'.s) : fixed'[p] = val[p]]_vars
\* hold then release of the same frames restores the initial setting of those frames
UndoRestores == [][act'.op = "undo" => \A p \in LensParamsOf(act'.s) : fixed'[p] = Fixed0[p]]_vars
RestartExact == act.op = "restart" => val = Init0

EmitInit == act.op = "init" => PrintT("@@" \o ToJson([init |-> state]))
EmitStep == PrintT("@@" \o ToJson([pre |-> state, act |-> act', post |-> state']))
EmitHist == Len(hist) < Depth \/ PrintT("@@" \o ToJson([hist |-> hist]))
View == <<val, fixed, low, up, sig>>
=============================================================================
