------------------------------ MODULE Diagram ------------------------------
(* Representations of one object and the conversions between them.          *)
(*                                                                          *)
(* An object (an ellipse, a halo, a flux, a cosmology ...) has one value in *)
(* each representation.  A representation carries some features of the      *)
(* object; a conversion goes from one representation to another that        *)
(* carries no feature the first one lacks.  A user walks along conversions  *)
(* and turns to other objects with the same instances in between.  The      *)
(* diagram commutes: wherever the walk arrives, the value is the one of the *)
(* object, whatever the way and whatever was converted before.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes,    \* representation -> set of features it carries
          Edges,    \* set of <<conversion, from, to>>
          Objects,  \* number of objects
          L         \* length of walks
VARIABLES obj, at, val, hist
vars == <<obj, at, val, hist>>

Rep(o, n) == [o |-> o, f |-> Nodes[n]]          \* the value of object o in representation n
Carry(v, n) == [o |-> v.o, f |-> v.f \cap Nodes[n]]   \* what a conversion can know about its target

ASSUME \A e \in Edges : e[2] \in DOMAIN Nodes /\ e[3] \in DOMAIN Nodes
ASSUME \A e \in Edges : Nodes[e[3]] \subseteq Nodes[e[2]]
ASSUME \A e, f \in Edges : e[1] = f[1] => e = f
\* every representation is reached by a conversion: nothing in the catalogue is idle
ASSUME \A n \in DOMAIN Nodes : \E e \in Edges : e[2] = n \/ e[3] = n

Init == /\ obj \in 1 .. Objects /\ at \in DOMAIN Nodes
        /\ \E e \in Edges : e[2] = at
        /\ val = Rep(obj, at)
        /\ hist = <<[k |-> "take", o |-> obj, n |-> at]>>
Convert(e) == /\ e[2] = at
              /\ at' = e[3] /\ val' = Carry(val, e[3]) /\ UNCHANGED obj
              /\ hist' = Append(hist, [k |-> "conv", e |-> e[1], n |-> e[3]])
\* only worth while after a conversion and with a conversion to follow
Take(o) == /\ o /= obj /\ hist[Len(hist)].k = "conv" /\ Len(hist) < L
           /\ \E e \in Edges : e[2] = hist[1].n
           /\ obj' = o /\ at' = hist[1].n /\ val' = Rep(o, at')
           /\ hist' = Append(hist, [k |-> "take", o |-> o, n |-> at'])
Next == Len(hist) <= L /\ ((\E e \in Edges : Convert(e)) \/ (\E o \in 1 .. Objects : Take(o)))
Spec == Init /\ [][Next]_vars

Commutes == val = Rep(obj, at)
Emit == (Len(hist) > 1 /\ hist[Len(hist)].k = "conv" /\ (Len(hist) = L + 1 \/ ~\E e \in Edges : e[2] = at))
          => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
