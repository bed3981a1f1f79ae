----------------------------- MODULE Pointwise -----------------------------
(* Profiles are functions of a position.                                     *)
(*                                                                           *)
(* A call hands a profile object a parameter set and a sequence of positions *)
(* in one of several forms; the answer has one entry per position, in order, *)
(* and each entry depends on the parameters and its own position only - not  *)
(* on the form, on the other positions, on earlier calls, or on what was     *)
(* asked of another object.  Moving the positions and the centre together    *)
(* (a shift of the frame) does not change the answer; turning positions and  *)
(* profile together about the origin turns the answer (as a scalar, vector   *)
(* or tensor).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Points, Integral,  \* position ids; those with integer coordinates
          Objects, Params, Forms, Shifts, Turns, MaxPts, Depth

Seqs == UNION {[1..n -> Points] : n \in 1..MaxPts}
Shapes(f) ==
  CASE f = "float" -> {s \in Seqs : Len(s) = 1}
    [] f = "int"   -> {s \in Seqs : \A i \in DOMAIN s : s[i] \in Integral}
    [] OTHER       -> Seqs

VARIABLES hist, told
vars == <<hist, told>>
\* told[<<param, point>>] : the entries given so far (a set with at most one element per key)
Entry(p, x) == [p |-> p, x |-> x]
Answer(p, s) == [i \in DOMAIN s |-> Entry(p, s[i])]

Init == hist = <<>> /\ told = {}
Call(o, p, f, s, d, t) ==
  /\ hist' = Append(hist, [o |-> o, p |-> p, f |-> f, s |-> s, d |-> d, t |-> t, answer |-> Answer(p, s)])
  /\ told' = told \cup {<<p, s[i], Answer(p, s)[i]>> : i \in DOMAIN s}
Next ==
  /\ Len(hist) < Depth
  /\ \E o \in {RandomElement(Objects)}, p \in {RandomElement(Params)}, f \in {RandomElement(Forms)} :
       \E s \in {RandomElement(Shapes(f))}, d \in {RandomElement(Shifts)}, t \in {RandomElement(Turns)} : Call(o, p, f, s, d, t)

----------------------------------------------------------------------------
Functional == \A a, b \in told : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]
Aligned == \A i \in DOMAIN hist : DOMAIN hist[i].answer = DOMAIN hist[i].s
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
