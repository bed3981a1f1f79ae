------------------------- MODULE ConstraintSolver -------------------------
(* Lens parameters that are solved for such that the image positions of a   *)
(* point source come from one source.  They are no part of the sampled      *)
(* vector; their values are a function of the vector and of the images      *)
(* only, whatever happened before and wherever the solver started.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Free,     \* sampled parameters
  Solved,   \* parameters solved for
  Versions, \* values a sampled parameter can take
  Depth

VARIABLES
  vec,    \* Free -> version
  img,    \* version of the image positions
  start,  \* version of the initial model
  model,  \* parameter -> provenance: a version, or the state it was solved in
  hist
vars == <<vec, img, start, model, hist>>

Key == <<vec, img>>
Decode(v, g) == [p \in Free \cup Solved |-> IF p \in Free THEN <<"vec", v[p]>> ELSE <<"sol", v, g>>]
Encode(m) == [p \in Free |-> m[p][2]]

Init ==
  /\ vec = [p \in Free |-> 0] /\ img = 0 /\ start = 0
  /\ model = Decode(vec, img)
  /\ hist = <<>>

Rnd(S) == {RandomElement(S)}
\* the first step in the same state of vector and images; 0 when there is none
Same == LET S == {i \in DOMAIN hist : hist[i].vec = vec' /\ hist[i].img = img'} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Log(a) == hist' = Append(hist, [act |-> a, vec |-> vec', img |-> img', start |-> start', same |-> Same])
Move == \E p \in Rnd(Free), v \in Rnd(Versions) :
  /\ vec' = [vec EXCEPT ![p] = v] /\ UNCHANGED <<img, start>> /\ model' = Decode(vec', img') /\ Log([op |-> "move", p |-> p])
Back == /\ vec' = [p \in Free |-> 0] /\ UNCHANGED <<img, start>> /\ model' = Decode(vec', img') /\ Log([op |-> "back"])
Images == \E g \in Rnd(Versions) :
  /\ img' = g /\ UNCHANGED <<vec, start>> /\ model' = Decode(vec', img') /\ Log([op |-> "images"])
RoundTrip ==
  /\ vec' = Encode(model) /\ UNCHANGED <<img, start>> /\ model' = Decode(vec', img') /\ Log([op |-> "roundtrip"])
Rebuild == \E s \in Rnd(Versions) :
  /\ start' = s /\ UNCHANGED <<vec, img, model>> /\ Log([op |-> "rebuild"])

Next == Len(hist) < Depth /\ \E w \in Rnd(1 .. 8) : CASE w <= 3 -> Move [] w = 4 -> Images [] w = 5 -> Back [] w = 6 -> Rebuild [] OTHER -> RoundTrip

---------------------------------------------------------------------------
TypeOK == DOMAIN vec = Free /\ DOMAIN model = Free \cup Solved
\* vector and model say the same, and going back and forth changes nothing
RoundTripIsIdentity == Encode(model) = vec /\ Decode(Encode(model), img) = model
\* what is solved for depends on the state only
StateOnly == \A p \in Solved : model[p] = <<"sol", vec, img>>
Emit == Len(hist) < Depth \/ PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
