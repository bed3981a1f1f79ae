----------------------------- MODULE MultiPlane -----------------------------
(* Ray tracing through several lens planes.                                  *)
(*                                                                           *)
(* A ray starts at the observer and moves backwards through the planes: it   *)
(* drifts freely to the next plane and is deflected there by every lens of   *)
(* that plane.  Only lenses up to the end of the path act; lenses of the     *)
(* same plane act on the same position; stopping at intermediate planes      *)
(* (source planes, cuts) does not alter the path.  The specification builds  *)
(* the path step by step as a program of drifts and kicks; the conformance   *)
(* driver interprets the program numerically with its own distances and      *)
(* single-lens deflections and compares it with the code.                    *)
EXTENDS Integers, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS NL,        \* number of lenses
          ZL,        \* lens planes 1..ZL
          ZS,        \* set of source planes
          ObsOK,     \* lenses whose position may be given in the observed convention
          MaxCuts, MaxObs, Samples, Emitting

Lenses == 1..NL
VARIABLES zl, zs, obs, cuts, cur, prog, done
vars == <<zl, zs, obs, cuts, cur, prog, done>>

Drift(a, b) == [op |-> "drift", a |-> a, b |-> b]
Kick(z, S) == [op |-> "kick", z |-> z, lenses |-> S]

Init0(l, s, o, c) ==
  /\ zl = l /\ zs = s /\ obs = o /\ cuts = {x \in c : x < s}
  /\ cur = 0 /\ prog = <<>> /\ done = FALSE
Init ==
  IF Samples = 0
  THEN \E l \in [Lenses -> 1..ZL], s \in ZS, o \in {T \in SUBSET ObsOK : Cardinality(T) <= MaxObs},
          c \in {T \in SUBSET (1..ZL) : Cardinality(T) <= MaxCuts} : Init0(l, s, o, c)
  ELSE \E k \in 1..Samples :
       \E l \in {[i \in Lenses |-> RandomElement(1..(ZL + 0 * k))]}, s \in {RandomElement(ZS)},
          o \in {RandomSubset(k % (MaxObs + 1), ObsOK)}, c \in {RandomSubset(k % (MaxCuts + 1), 1..ZL)} : Init0(l, s, o, c)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Stops == {zl[i] : i \in Lenses} \cup cuts \cup {zs}
Ahead == {x \in Stops : x > cur /\ x <= zs}
At(z) == {i \in Lenses : zl[i] = z}

Step ==
  /\ cur < zs
  /\ LET n == MinOf(Ahead)
     IN /\ prog' = prog \o <<Drift(cur, n)>> \o (IF At(n) = {} THEN <<>> ELSE <<Kick(n, At(n))>>)
        /\ cur' = n
        /\ done' = (n = zs)
  /\ UNCHANGED <<zl, zs, obs, cuts>>
Next == Step

--------------------------------------------------------------------------
\* reference: the direct path from a to b (lenses strictly after a, up to and including b)
RECURSIVE Direct(_, _)
Direct(a, b) ==
  LET P == {zl[i] : i \in Lenses} \cap ((a + 1)..b)
      n == IF P = {} THEN b ELSE MinOf(P)
  IN IF a = b THEN <<>>
     ELSE <<Drift(a, n)>> \o (IF At(n) = {} THEN <<>> ELSE <<Kick(n, At(n))>>) \o Direct(n, b)
\* merging consecutive drifts
RECURSIVE Merge(_)
Merge(p) ==
  IF Len(p) < 2 THEN p
  ELSE IF p[1].op = "drift" /\ p[2].op = "drift"
       THEN Merge(<<Drift(p[1].a, p[2].b)>> \o SubSeq(p, 3, Len(p)))
       ELSE <<p[1]>> \o Merge(Tail(p))

Kicked == UNION {prog[q].lenses : q \in {q \in DOMAIN prog : prog[q].op = "kick"}}
EachOnce == \A i \in Lenses : Cardinality({q \in DOMAIN prog : prog[q].op = "kick" /\ i \in prog[q].lenses}) <= 1
NoneBehind == done => Kicked = {i \in Lenses : zl[i] <= zs}
CutsInert == done => Merge(prog) = Direct(0, zs)
Contiguous == \A q, r \in DOMAIN prog : (q < r /\ prog[q].op = "drift" /\ prog[r].op = "drift"
                 /\ \A m \in (q + 1)..(r - 1) : prog[m].op # "drift") => prog[q].b = prog[r].a
\* path to the plane of a lens, without the deflection of that plane (observed position -> physical position)
UpTo(z) == LET d == Direct(0, z) IN IF d[Len(d)].op = "kick" THEN SubSeq(d, 1, Len(d) - 1) ELSE d
PathsTo == [z \in cuts \cup {zs} |-> Direct(0, z)]
Emit == (done /\ Emitting) => PrintT("@@" \o ToJson([zl |-> zl, zs |-> zs, obs |-> obs, cuts |-> cuts, prog |-> prog,
     pre |-> [i \in Lenses |-> UpTo(zl[i])],
     stops |-> [n \in 1..Cardinality(cuts \cup {zs}) |->
         LET S == cuts \cup {zs}
             z == CHOOSE z \in S : Cardinality({y \in S : y < z}) = n - 1
         IN [z |-> z, path |-> Direct(0, z)]]]))
=============================================================================
