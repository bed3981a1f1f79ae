----------------------------- MODULE SuperGrid -----------------------------
(* Where the surface brightness of an image is evaluated, and how the       *)
(* evaluated values make up the image.                                      *)
(*                                                                          *)
(* A point is given in units of 1/(2F) pixel, so that the centre of pixel   *)
(* <<i, j>> is <<2F i, 2F j>> and the centres of its F x F sub-pixels are   *)
(* integers as well.  In the regular mode every evaluated pixel is sampled  *)
(* by its sub-pixels; in the adaptive mode only the evaluated pixels that   *)
(* are marked are, the others by their centre.  The value of a pixel is the *)
(* mean of its samples; a pixel that is not evaluated is dark.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NX, NY, F, Adaptive,
          Random,  \* TRUE: draw the masks at random; FALSE: all masks
          Evals    \* how many times the image is made
Pixels == (0 .. NX - 1) \X (0 .. NY - 1)
Offs == {2 * k + 1 - F : k \in 0 .. F - 1}
Centre(p) == <<2 * F * p[1], 2 * F * p[2]>>
Subs(p) == {<<Centre(p)[1] + a, Centre(p)[2] + b>> : a \in Offs, b \in Offs}

VARIABLES ev, ss, runs
vars == <<ev, ss, runs>>
Samples(p) == IF p \notin ev THEN {} ELSE IF ~Adaptive \/ p \in ss THEN Subs(p) ELSE {Centre(p)}
Points == UNION {Samples(p) : p \in Pixels}

\* a surface brightness, different at every evaluation
V(k, q) == ((q[1] * (2 * k + 3) + q[2] * (5 * k + 1) + q[1] * q[2] + k) % 17) - 4
RECURSIVE Sum(_, _)
Sum(k, S) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN V(k, q) + Sum(k, S \ {q})
\* F^2 times the value of a pixel
Value(k, p) == IF Cardinality(Samples(p)) = 1 THEN F * F * Sum(k, Samples(p)) ELSE Sum(k, Samples(p))
Image(k) == [p \in Pixels |-> Value(k, p)]

Pick(f) == {p \in Pixels : f[p] <= 2}
Draw == {Pick(f) : f \in {TLCEval([p \in Pixels |-> RandomElement(1 .. 3)])}}
Init ==
  /\ runs = <<>>
  /\ IF Random THEN ev \in Draw /\ ev # {} /\ ss \in Draw
     ELSE ev \in SUBSET Pixels /\ ev # {} /\ ss \in (IF Adaptive THEN SUBSET Pixels ELSE {{}})
Make == /\ Len(runs) < Evals /\ runs' = Append(runs, Len(runs) + 1) /\ UNCHANGED <<ev, ss>>
Next == Make

---------------------------------------------------------------------------
\* every point belongs to one evaluated pixel
Partition == \A p, q \in Pixels : p # q => Samples(p) \cap Samples(q) = {}
Enough == \A p \in Pixels : Cardinality(Samples(p)) = (IF p \notin ev THEN 0 ELSE IF ~Adaptive \/ p \in ss THEN F * F ELSE 1)
\* the samples of a pixel are spread evenly about its centre, within the pixel
Balanced == \A p \in Pixels : \A q \in Samples(p) :
  /\ <<2 * Centre(p)[1] - q[1], 2 * Centre(p)[2] - q[2]>> \in Samples(p)
  /\ q[1] - Centre(p)[1] \in (-F + 1) .. (F - 1) /\ q[2] - Centre(p)[2] \in (-F + 1) .. (F - 1)
Dark == \A p \in Pixels \ ev : Value(1, p) = 0
Emit == Len(runs) = Evals =>
  PrintT("@@" \o ToJson([ev |-> ev, ss |-> ss, px |-> {[p |-> p, pts |-> Samples(p), img |-> [k \in 1 .. Evals |-> Value(k, p)]] : p \in Pixels},
                         val |-> {[q |-> q, v |-> [k \in 1 .. Evals |-> V(k, q)]] : q \in Points}]))
=============================================================================
