---------------------------- MODULE Kinematics ----------------------------
(* Stellar kinematics of a deflector.                                       *)
(*                                                                          *)
(* Statics: light l and mass components rho on shells 1 .. N.  The Jeans    *)
(* equation gives the pressure  P(r) = sum_{s >= r} w(s) l(s) M(s)  with    *)
(* M the enclosed mass of the selected components; what is observed in a    *)
(* segment of an aperture is the light-weighted mean of the line-of-sight   *)
(* pressure over the lattice columns of the segment.                        *)
(*                                                                          *)
(* Dynamics: one solver instance is asked for dispersions again and again,  *)
(* with mass, light and anisotropy varying independently.  It may keep      *)
(* intermediate results (slots), each of which depends on part of the       *)
(* arguments only; the answer must be that of the arguments of the query.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS N,        \* number of shells
          Vals,     \* values of light and density
          Comps,    \* number of mass components
          Kinds,    \* kinds of queries
          NM, NL, NA,  \* numbers of mass, light and anisotropy parameter sets
          Insts,    \* number of instances
          L         \* length of histories
VARIABLES l, rho, slots, last, hist
vars == <<l, rho, slots, last, hist>>

Sh == 1 .. N
Cs == 1 .. Comps
SelSets == (SUBSET Cs) \ {{}}
Sum(f(_), S) == MapThenSumSet(f, S)

\* ---------------------------------------------------------------- statics
M(K, s) == Sum(LAMBDA c : Sum(LAMBDA t : rho[c][t], 1 .. s), K)
\* weight of a shell of radius s: N!^2 / s^2 would be exact; any positive weight serves
W(s) == (N + 1) - s
P(K, r) == Sum(LAMBDA s : W(s) * l[s] * M(K, s), r .. N)
\* columns: projected radius R, shells r >= R each met twice but the innermost
Los(K, R) == P(K, R) + 2 * Sum(LAMBDA r : P(K, r), (R + 1) .. N)
Lum(R) == l[R] + 2 * Sum(LAMBDA r : l[r], (R + 1) .. N)
Seg(K, S) == <<Sum(LAMBDA R : Los(K, R), S), Sum(LAMBDA R : Lum(R), S)>>

Additive == \A K \in SelSets : \A r \in Sh : P(K, r) = Sum(LAMBDA c : P({c}, r), K)
Outward == \A K \in SelSets : \A r \in 1 .. (N - 1) : P(K, r) >= P(K, r + 1)
More == \A K, J \in SelSets : K \subseteq J => \A r \in Sh : Los(K, r) <= Los(J, r)
\* a parted aperture: the mean of the whole lies between the means of its parts
Parted == \A S \in SUBSET Sh : LET a == Seg(Cs, S) b == Seg(Cs, Sh \ S) t == Seg(Cs, Sh) IN
            /\ t = <<a[1] + b[1], a[2] + b[2]>>
            /\ a[2] > 0 /\ b[2] > 0 => \/ (a[1] * t[2] <= t[1] * a[2] /\ t[1] * b[2] <= b[1] * t[2])
                                       \/ (a[1] * t[2] >= t[1] * a[2] /\ t[1] * b[2] >= b[1] * t[2])
\* scale-free in the amplitude of the light: twice the light, twice the pressure
Twice(f) == [s \in Sh |-> 2 * f[s]]
PL(f, K, r) == Sum(LAMBDA s : W(s) * f[s] * M(K, s), r .. N)
Amplitude == \A K \in SelSets : \A r \in Sh : PL(Twice(l), K, r) = 2 * P(K, r)

\* --------------------------------------------------------------- dynamics
\* what an instance may keep, and of which arguments it is made
Slots == {"mass", "light2d", "light3d", "drawn", "jeans", "los", "kernel"}
Made(s, q) == CASE s = "mass" -> <<q.m>>
                [] s \in {"light2d", "light3d", "drawn"} -> <<q.l>>
                [] s = "kernel" -> <<q.a>>
                [] OTHER -> <<q.m, q.l, q.a>>
Uses(k) == CASE k = "slit" -> {"drawn", "los", "light2d", "kernel"}
             [] k = "slit3d" -> {"drawn", "jeans", "mass"}
             [] k = "map" -> {"drawn", "los", "light2d", "kernel"}
             [] k = "map3d" -> {"drawn", "jeans", "mass"}
             [] k = "grid" -> {"los", "light2d", "kernel"}
             [] k = "df" -> {"jeans", "mass"}
             [] OTHER -> {"los", "light2d"}
None == <<>>
Queries == [kind : Kinds, m : 1 .. NM, l : 1 .. NL, a : 1 .. NA, inst : 1 .. Insts]

Init == /\ l \in [Sh -> Vals] /\ rho \in [Cs -> [Sh -> Vals]]
        /\ slots = [i \in 1 .. Insts |-> [s \in Slots |-> None]]
        /\ last = None /\ hist = <<>>
\* a query fills the slots it uses that are empty, answers from the slots, and forgets them all
Ask(q) == LET held == slots[q.inst]
              used == [s \in Uses(q.kind) |-> IF held[s] = None THEN Made(s, q) ELSE held[s]]
          IN /\ last' = <<q, used>>
             /\ slots' = [slots EXCEPT ![q.inst] = [s \in Slots |-> None]]
             /\ hist' = Append(hist, q)
             /\ UNCHANGED <<l, rho>>
Next == Len(hist) < L /\ \E q \in Queries : Ask(q)
Spec == Init /\ [][Next]_vars
Own == last # None => \A s \in Uses(last[1].kind) : last[2][s] = Made(s, last[1])
Forgotten == \A i \in 1 .. Insts : \A s \in Slots : slots[i][s] = None

\* ------------------------------------------------------------- generation
RInit == /\ l = [s \in Sh |-> 1] /\ rho = [c \in Cs |-> [s \in Sh |-> 1]]
         /\ slots = [i \in 1 .. Insts |-> [s \in Slots |-> None]] /\ last = None /\ hist = <<>>
\* each query differs from the one before in one argument, or is a new one
RNext == /\ Len(hist) < L
         /\ \E k \in {RandomElement(Kinds)} : \E i \in {RandomElement(1 .. Insts)} : \E w \in {RandomElement({"m", "l", "a", "all"})} :
            \E m \in {RandomElement(1 .. NM)} : \E li \in {RandomElement(1 .. NL)} : \E a \in {RandomElement(1 .. NA)} :
              LET n == [kind |-> k, m |-> m, l |-> li, a |-> a, inst |-> i]
                  o == IF hist = <<>> THEN n ELSE hist[Len(hist)]
                  q == CASE w = "m" -> [o EXCEPT !.m = m, !.kind = k, !.inst = i]
                         [] w = "l" -> [o EXCEPT !.l = li, !.kind = k, !.inst = i]
                         [] w = "a" -> [o EXCEPT !.a = a, !.kind = k, !.inst = i]
                         [] OTHER -> n
              IN hist' = Append(hist, q) /\ UNCHANGED <<l, rho, slots, last>>
RSpec == RInit /\ [][RNext]_vars

\* an analysis of a lens made of several components: which of them are the deflector, how many
\* observations, moved by how much, one light profile per observation or one for all
SNext == /\ Len(hist) < L
         /\ \E k \in {RandomElement(Kinds)} : \E m \in {RandomElement(1 .. NM)} : \E li \in {RandomElement(1 .. NL)} : \E a \in {RandomElement(1 .. NA)} :
            hist' = Append(hist, [kind |-> k, m |-> m, l |-> li, a |-> a, inst |-> 1]) /\ UNCHANGED <<l, rho, slots, last>>
SInit == RInit
SSpec == SInit /\ [][SNext]_vars
Emit == (Len(hist) = L) =>
          \E K \in {RandomElement(SelSets)} : \E J \in {RandomElement(SelSets)} : \E b \in {RandomElement(0 .. 15)} :
            PrintT("@@" \o ToJson([hist |-> hist, mass |-> K, light |-> J, flags |-> b]))
=============================================================================
