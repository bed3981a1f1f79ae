--------------------------- MODULE Superposition ---------------------------
(* What a list of components answers, and how the answers hang together.     *)
(*                                                                           *)
(* A model is a list of N components.  The answer to a linear question is    *)
(* the sum of the answers of the selected components, each counted once,     *)
(* whatever the form of the selection.  An answer is represented here by the *)
(* number of times each component enters it (its multiplicity).              *)
(*                                                                           *)
(* The questions themselves are not independent: Defs states how each        *)
(* quantity derives from the potential and the deflection.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,            \* number of components
          MaxLen,       \* longest index list of a selection
          Kinds         \* forms of selection that are offered

Idx == 1..N
Lists == UNION {[1..m -> Idx] : m \in 0..MaxLen}
Selections ==
       (IF "none"  \in Kinds THEN {[kind |-> "none"]} ELSE {})
  \cup (IF "int"   \in Kinds THEN {[kind |-> "int", i |-> i] : i \in Idx} ELSE {})
  \cup (IF "list"  \in Kinds THEN {[kind |-> "list", l |-> l] : l \in Lists} ELSE {})
  \cup (IF "bools" \in Kinds THEN {[kind |-> "bools", b |-> b] : b \in [Idx -> BOOLEAN]} ELSE {})

Range(s) == {s[i] : i \in DOMAIN s}
Selected(s) ==
  CASE s.kind = "none"  -> Idx
    [] s.kind = "int"   -> {s.i}
    [] s.kind = "list"  -> Range(s.l)
    [] s.kind = "bools" -> {i \in Idx : s.b[i]}
Mult(s) == [i \in Idx |-> IF i \in Selected(s) THEN 1 ELSE 0]

VARIABLES sel, acc, done
vars == <<sel, acc, done>>

\* evaluation walks the list once
Init == sel \in Selections /\ acc = [i \in Idx |-> 0] /\ done = {}
Visit(i) ==
  /\ i \notin done
  /\ \A j \in Idx : j < i => j \in done
  /\ acc' = [acc EXCEPT ![i] = @ + (IF i \in Selected(sel) THEN 1 ELSE 0)]
  /\ done' = done \cup {i}
  /\ UNCHANGED sel
Next == \E i \in Idx : Visit(i)
Complete == done = Idx

----------------------------------------------------------------------------
EachOnce == Complete => acc = Mult(sel)
\* a selection and its complement add up to the whole
Partition == Complete /\ sel.kind = "bools" =>
   \A i \in Idx : acc[i] + Mult([kind |-> "bools", b |-> [j \in Idx |-> ~sel.b[j]]])[i] = 1
\* naming a component twice or in another order changes nothing
OrderFree == Complete /\ sel.kind = "list" =>
   acc = Mult([kind |-> "bools", b |-> [j \in Idx |-> j \in Range(sel.l)]])
Emit == Complete => PrintT("@@" \o ToJson([sel |-> sel, mult |-> acc]))

----------------------------------------------------------------------------
(* Derived quantities, in prefix notation.  "x" and "y" are the position,     *)
(* "dx" and "dy" differentiate with respect to it.                           *)
Defs == [
  ray_x    |-> <<"sub", "x", "alpha_x">>,
  ray_y    |-> <<"sub", "y", "alpha_y">>,
  alpha_x  |-> <<"dx", "potential">>,
  alpha_y  |-> <<"dy", "potential">>,
  f_xx     |-> <<"dx", "alpha_x">>,
  f_xy     |-> <<"dy", "alpha_x">>,
  f_yx     |-> <<"dx", "alpha_y">>,
  f_yy     |-> <<"dy", "alpha_y">>,
  kappa    |-> <<"half", <<"add", "f_xx", "f_yy">>>>,
  gamma1   |-> <<"half", <<"sub", "f_xx", "f_yy">>>>,
  gamma2   |-> "f_xy",
  curl     |-> <<"sub", "f_xy", "f_yx">>,
  detinv   |-> <<"sub", <<"mul", <<"sub", "one", "f_xx">>, <<"sub", "one", "f_yy">>>>, <<"mul", "f_xy", "f_yx">>>>,
  fermat   |-> <<"sub", <<"half", <<"add", <<"mul", "alpha_x", "alpha_x">>, <<"mul", "alpha_y", "alpha_y">>>>>>, "potential">>,
  f_xxx    |-> <<"dx", "f_xx">>,
  f_xxy    |-> <<"dy", "f_xx">>,
  f_xyy    |-> <<"dy", "f_xy">>,
  f_yyy    |-> <<"dy", "f_yy">>
]
EmitDefs == (done = {} /\ sel.kind = "none") => PrintT("@@" \o ToJson([defs |-> Defs]))
=============================================================================
