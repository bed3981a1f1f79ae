---------------------------- MODULE LinearBands ----------------------------
(* Amplitudes of the light components of one or several images.             *)
(*                                                                          *)
(* An image is linear in the amplitudes.  Each band sees some components,   *)
(* in a given order; its amplitude vector is their concatenation.  The data *)
(* of a band are a model with known amplitudes, so solving for amplitudes   *)
(* has to return these: per band, or one vector for all bands when the      *)
(* amplitudes are shared.  Pixels that are masked carry no information.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bands,    \* 1 .. n
          Comps,    \* component names
          NB,       \* component -> number of amplitudes
          Sel,      \* band -> sequence of components
          Joint,    \* amplitudes are shared among the bands
          Compute,  \* bands that are used
          Depth
ASSUME Joint => \A a, b \in Bands : Sel[a] = Sel[b]

VARIABLES kw,    \* component -> amplitudes in the hands of the user
          data,  \* band -> component -> amplitudes the data are made of
          sol,   \* band -> amplitude vector of the last solution (<<>>: none)
          hist
vars == <<kw, data, sol, hist>>

RECURSIVE Cat(_, _)
Cat(f, s) == IF s = <<>> THEN <<>> ELSE f[Head(s)] \o Cat(f, Tail(s))
Vec(f, b) == Cat(f, Sel[b])
RECURSIVE Len0(_)
Len0(s) == IF s = <<>> THEN 0 ELSE NB[Head(s)] + Len0(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
\* amplitudes of component c in a vector of band b
Start(b, c) == LET i == CHOOSE i \in DOMAIN Sel[b] : Sel[b][i] = c IN Len0(SubSeq(Sel[b], 1, i - 1))
Slice(v, b, c) == SubSeq(v, Start(b, c) + 1, Start(b, c) + NB[c])
Put(v, b) == [c \in Comps |-> IF c \in Range(Sel[b]) THEN Slice(v, b, c) ELSE kw[c]]

Amps == {-4, -2, 1, 2, 3, 5, 7, 9}
Some == TLCEval([c \in Comps |-> [k \in 1 .. NB[c] |-> RandomElement(Amps)]])
NewData == IF Joint THEN {[b \in Bands |-> f] : f \in {Some}} ELSE {TLCEval([b \in Bands |-> Some])}
Init == kw \in {Some} /\ data \in NewData /\ sol = [b \in Bands |-> <<>>] /\ hist = <<>>
Log(r) == hist' = Append(hist, r @@ [kw |-> kw', data |-> data', sol |-> sol'])
Observe == data' \in NewData /\ UNCHANGED <<kw, sol>> /\ Log([op |-> "observe", b |-> 0])
Solve == /\ sol' = [b \in Bands |-> IF b \in Compute THEN Vec(data[b], b) ELSE <<>>]
         /\ UNCHANGED <<kw, data>> /\ Log([op |-> "solve", b |-> 0])
Spoil == UNCHANGED <<kw, data, sol>> /\ Log([op |-> "spoil", b |-> 0])
Update(b) == sol[b] # <<>> /\ kw' = Put(sol[b], b) /\ UNCHANGED <<data, sol>> /\ Log([op |-> "update", b |-> b])
Write(b) == \E f \in {Some} : LET v == Vec(f, b) IN kw' = Put(v, b) /\ UNCHANGED <<data, sol>> /\ Log([op |-> "write", b |-> b, v |-> v])
Render(b) == UNCHANGED <<kw, data, sol>> /\ Log([op |-> "render", b |-> b, v |-> Vec(kw, b)])
Rnd(S) == {RandomElement(S)}
Next == Len(hist) < Depth /\ \E w \in Rnd(1 .. 10), b \in Rnd(Bands) :
  CASE w <= 1 -> Observe [] w <= 4 -> Solve [] w = 5 -> Spoil
    [] w <= 7 -> IF sol[b] # <<>> THEN Update(b) ELSE Solve
    [] w = 8 -> Write(b) [] OTHER -> Render(b)

---------------------------------------------------------------------------
Lengths == \A b \in Bands : Len(Vec(kw, b)) = Len0(Sel[b]) /\ (sol[b] # <<>> => Len(sol[b]) = Len0(Sel[b]))
\* what is written can be read back, and other components stay as they are
ReadBack == \A b \in Bands : sol[b] # <<>> => Vec(Put(sol[b], b), b) = sol[b] /\ \A c \in Comps \ Range(Sel[b]) : Put(sol[b], b)[c] = kw[c]
Shared == Joint => \A a, b \in Compute : sol[a] = sol[b] \/ sol[a] = <<>> \/ sol[b] = <<>>
Emit == Len(hist) < Depth \/ PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
