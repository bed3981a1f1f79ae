----------------------------- MODULE PointImages -----------------------------
(* Which image belongs to which point source component, which amplitude and *)
(* which linear response: the components are appended one by one.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxComp, Emitting

\* n: number of given images; for a source position the choice of the source (its images are solved for: image 0)
Comp == [type : {"UNLENSED"}, fixed : {FALSE}, n : 1..2, flux : BOOLEAN]
     \cup [type : {"LENSED_POSITION"}, fixed : BOOLEAN, n : {1, 3}, flux : BOOLEAN]
     \cup [type : {"SOURCE_POSITION"}, fixed : BOOLEAN, n : 1..2, flux : BOOLEAN]
VARIABLES comps, all, responses
vars == <<comps, all, responses>>
Init == comps = <<>> /\ all = <<>> /\ responses = <<>>

Images(i, c) == IF c.type = "SOURCE_POSITION" THEN << <<i, 0>> >> ELSE [j \in 1..c.n |-> <<i, j>>]
Responses(i, c) ==
  IF ~c.flux THEN <<>>
  ELSE IF c.fixed THEN <<[comp |-> i, joint |-> TRUE, image |-> 0]>>
  ELSE IF c.type = "SOURCE_POSITION" THEN <<[comp |-> i, joint |-> FALSE, image |-> 0]>>
  ELSE [j \in 1..c.n |-> [comp |-> i, joint |-> FALSE, image |-> j]]
Add(c) ==
  /\ Len(comps) < MaxComp
  /\ comps' = Append(comps, c)
  /\ all' = all \o (IF c.flux THEN Images(Len(comps) + 1, c) ELSE <<>>)
  /\ responses' = responses \o Responses(Len(comps) + 1, c)
Next == \E c \in Comp : Add(c)

ListIsConcatenation ==
  /\ \A p \in 1..(Len(all) - 1) : all[p][1] < all[p + 1][1] \/ (all[p][1] = all[p + 1][1] /\ all[p][2] < all[p + 1][2])
  /\ {p[1] : p \in {all[q] : q \in DOMAIN all}} = {i \in DOMAIN comps : comps[i].flux}
OnePerAmplitude ==
  /\ \A p, q \in DOMAIN responses : p # q => responses[p] # responses[q]
  /\ \A i \in DOMAIN comps : LET R == {p \in DOMAIN responses : responses[p].comp = i}
        IN Cardinality(R) = IF ~comps[i].flux THEN 0 ELSE IF comps[i].fixed \/ comps[i].type = "SOURCE_POSITION" THEN 1 ELSE comps[i].n
Emit == (Emitting /\ Len(comps) > 0) => PrintT("@@" \o ToJson([comps |-> comps, all |-> all, responses |-> responses]))
=============================================================================
