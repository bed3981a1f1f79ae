------------------------------- MODULE Mass -------------------------------
(* Mass (or light) of spherical components and what is derived from it.     *)
(*                                                                          *)
(* A component with one set of parameters is a density in shells of a       *)
(* lattice ball.  Everything a user may ask for - density, projected        *)
(* density, mass in a ball, mass in a cylinder, mean density in a cylinder, *)
(* Einstein radius, radius of half the total, radial slope - is defined by  *)
(* sums over the cells, for any set of components and in either             *)
(* normalisation.  One instance answers queries for several parameter sets  *)
(* in any order; the answer is a function of the query.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS N,         \* radius of the ball in cells
          Dens,      \* possible values of the density of a shell
          Comps,     \* number of components
          Params,    \* number of parameter sets
          Kinds,     \* kinds of queries
          Conv,      \* normalisations: "lens", "phys"
          Radii,     \* number of radii in queries
          L          \* length of histories
VARIABLES rho, unit, memo, hist
vars == <<rho, unit, memo, hist>>

Cells == {c \in (-N .. N) \X (-N .. N) \X (-N .. N) : c[1] * c[1] + c[2] * c[2] + c[3] * c[3] <= N * N}
Cols == {<<c[1], c[2]>> : c \in Cells}
S3(c) == c[1] * c[1] + c[2] * c[2] + c[3] * c[3]
S2(c) == c[1] * c[1] + c[2] * c[2]
Shells == {S3(c) : c \in Cells}
Rings == {S2(c) : c \in Cols}
RECURSIVE Nth(_, _)
Nth(S, i) == IF i = 1 \/ Cardinality(S) = 1 THEN Min(S) ELSE Nth(S \ {Min(S)}, i - 1)
Sq(i) == Nth(Rings, i)                      \* the i-th radius, squared

\* definitions, by cells
RhoC(c, p, s) == rho[c][p][s]
Dn(K, p, s) == MapThenSumSet(LAMBDA c : RhoC(c, p, s), K)
SigmaCol(K, p, col) == MapThenSumSet(LAMBDA z : Dn(K, p, S3(<<col[1], col[2], z>>)), {z \in -N .. N : <<col[1], col[2], z>> \in Cells})
Ring(s) == CHOOSE col \in Cols : S2(col) = s
Sigma(K, p, s) == SigmaCol(K, p, Ring(s))
M3(K, p, s) == MapThenSumSet(LAMBDA c : Dn(K, p, S3(c)), {c \in Cells : S3(c) <= s})
M2(K, p, s) == MapThenSumSet(LAMBDA c : Dn(K, p, S3(c)), {c \in Cells : S2(c) <= s})
Total(K, p) == M2(K, p, N * N)
Area(s) == Cardinality({col \in Cols : S2(col) <= s})
Mean(K, p, s) == <<M2(K, p, s), Area(s)>>
EinsteinR(K, p) == Max({0} \cup {s \in Rings : M2(K, p, s) >= Area(s)})
HalfR(K, p) == Min({s \in Rings : 2 * M2(K, p, s) >= Total(K, p)})

\* the same by other ways: shell by shell, ring by ring
M3shell(K, p, s) == MapThenSumSet(LAMBDA t : Cardinality({c \in Cells : S3(c) = t}) * Dn(K, p, t), {t \in Shells : t <= s})
M2ring(K, p, s) == MapThenSumSet(LAMBDA t : Cardinality({c \in Cols : S2(c) = t}) * Sigma(K, p, t), {t \in Rings : t <= s})

Fac(q) == IF q.conv = "lens" THEN unit[Max(q.k)][q.p] ELSE 1
Answer(q) ==
  LET s == Sq(q.r) f == Fac(q) IN
  CASE q.what = "rho" -> f * Dn(q.k, q.p, s)
    [] q.what = "sigma" -> f * Sigma(q.k, q.p, s)
    [] q.what = "m3" -> f * M3(q.k, q.p, s)
    [] q.what = "m2" -> f * M2(q.k, q.p, s)
    [] q.what = "total" -> f * Total(q.k, q.p)
    [] q.what = "mean" -> f * Mean(q.k, q.p, s)[1]
    [] q.what = "einstein" -> EinsteinR(q.k, q.p)
    [] q.what = "half" -> HalfR(q.k, q.p)
    [] OTHER -> f * (Sigma(q.k, q.p, s) - Sigma(q.k, q.p, Sq(q.r + 1)))      \* slopes

Queries == [what : Kinds, k : (SUBSET (1 .. Comps)) \ {{}}, p : 1 .. Params, r : 1 .. Radii, conv : Conv, arr : BOOLEAN]
Fine(q) == /\ q.conv = "phys" => Cardinality(q.k) = 1        \* one physical normalisation per component
           /\ q.what \in {"total", "half", "einstein"} => ~q.arr /\ q.r = 1
           /\ q.what \in {"half", "einstein", "mean", "slope", "xi"} => ~q.arr

Init == /\ rho \in [1 .. Comps -> [1 .. Params -> [Shells -> Dens]]]
        /\ unit = [c \in 1 .. Comps |-> [p \in 1 .. Params |-> 1 + ((c + p) % 2)]]
        /\ memo = {} /\ hist = <<>>
Ask(q) == /\ Fine(q)
          /\ memo' = memo \cup {<<q, Answer(q)>>}
          /\ hist' = Append(hist, q)
          /\ UNCHANGED <<rho, unit>>
Next == Len(hist) < L /\ \E q \in Queries : Ask(q)
Spec == Init /\ [][Next]_vars

\* for generation: one random query at a time, densities of no interest
RInit == /\ rho = [c \in 1 .. Comps |-> [p \in 1 .. Params |-> [s \in Shells |-> 1]]]
         /\ unit = [c \in 1 .. Comps |-> [p \in 1 .. Params |-> 1]]
         /\ memo = {} /\ hist = <<>>
RNext == /\ Len(hist) < L
         /\ \E what \in {RandomElement(Kinds)} : \E k \in {RandomElement((SUBSET (1 .. Comps)) \ {{}})} : \E p \in {RandomElement(1 .. Params)} :
            \E r \in {RandomElement(1 .. Radii)} : \E cv \in {RandomElement(Conv)} : \E a \in {RandomElement(BOOLEAN)} :
              LET q0 == [what |-> what, k |-> k, p |-> p, r |-> r, conv |-> cv, arr |-> a]
                  q1 == IF q0.conv = "phys" THEN [q0 EXCEPT !.k = {Max(q0.k)}] ELSE q0
                  q2 == IF q1.what \in {"total", "half", "einstein"} THEN [q1 EXCEPT !.r = 1] ELSE q1
                  q3 == IF q2.what \in {"total", "half", "einstein", "mean", "slope", "xi"} THEN [q2 EXCEPT !.arr = FALSE] ELSE q2
              IN hist' = Append(hist, q3) /\ UNCHANGED <<rho, unit, memo>>
RSpec == RInit /\ [][RNext]_vars

\* what is asked twice is answered alike, whatever came in between
Functional == \A a, b \in memo : a[1] = b[1] => a[2] = b[2]
Cs == 1 .. Comps
All == (SUBSET Cs) \ {{}}
Ways == \A K \in All : \A p \in 1 .. Params : \A s \in Rings : M3(K, p, s) = M3shell(K, p, s) /\ M2(K, p, s) = M2ring(K, p, s)
Nested == \A p \in 1 .. Params : \A s \in Rings : M3(Cs, p, s) <= M2(Cs, p, s)
Closed == \A p \in 1 .. Params : M3(Cs, p, N * N) = M2(Cs, p, N * N)
Grows == \A p \in 1 .. Params : \A s, t \in Rings : s <= t => M2(Cs, p, s) <= M2(Cs, p, t) /\ M3(Cs, p, s) <= M3(Cs, p, t)
Adds == \A K \in All : \A p \in 1 .. Params : \A s \in Rings :
          /\ M3(K, p, s) = MapThenSumSet(LAMBDA c : M3({c}, p, s), K)
          /\ M2(K, p, s) = MapThenSumSet(LAMBDA c : M2({c}, p, s), K)
          /\ Sigma(K, p, s) = MapThenSumSet(LAMBDA c : Sigma({c}, p, s), K)
Half == \A K \in All : \A p \in 1 .. Params : \A s \in Rings : s < HalfR(K, p) => 2 * M2(K, p, s) < Total(K, p)
Emit == (Len(hist) = L) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
