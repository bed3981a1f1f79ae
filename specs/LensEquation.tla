--------------------------- MODULE LensEquation ---------------------------
(* A session with a lens equation solver.  World gives, for every source    *)
(* redshift and source position, the images of the source: their rank in    *)
(* arrival time and their magnification.  Faint images (opt) may be missed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  World,    \* [redshifts -> [sources -> set of [id, t, m, opt]]]
  Zs, Srcs, Z0,
  Solvers,  \* names of the methods
  Limits,   \* lower limits on the magnification, 0: none
  Depth

VARIABLES z, last, hist
vars == <<z, last, hist>>

Init == z = Z0 /\ last = <<>> /\ hist = <<>>

Regular(zz, s, limit) == {i \in World[zz][s] : ~i.opt /\ i.m >= limit}
\* the images in the order of their arrival time
InOrder(S) ==
  [k \in 1 .. Cardinality(S) |-> (CHOOSE i \in S : Cardinality({j \in S : j.t < i.t}) = k - 1).id]
Brightest(S, k) == {i \in S : Cardinality({j \in S : j.m > i.m}) < k}

Rnd(S) == {RandomElement(S)}
Log(a, r) == /\ last' = r
             /\ hist' = Append(hist, [act |-> a, z |-> z', result |-> r])

\* the stochastic method knows no limit
Solve == \E v \in Rnd(Solvers), s \in Rnd(Srcs), o \in Rnd(BOOLEAN) : \E l \in Rnd(IF v = "stochastic" THEN {0} ELSE Limits) :
  /\ z' = z
  /\ Log([op |-> "solve", solver |-> v, s |-> s, limit |-> l, sort |-> o], InOrder(Regular(z, s, l)))
Bright == \E s \in Rnd(Srcs), l \in Rnd(Limits), o \in Rnd(BOOLEAN), k \in Rnd(1 .. 5) :
  /\ z' = z
  /\ Log([op |-> "bright", s |-> s, limit |-> l, sort |-> o, k |-> k], InOrder(Brightest(Regular(z, s, l), k)))
ChangeZ == \E zz \in Rnd(Zs) : z' = zz /\ Log([op |-> "redshift"], <<>>)

Next == /\ Len(hist) < Depth
        /\ \E w \in Rnd(1 .. 6) : CASE w <= 3 -> Solve [] w = 4 -> Bright [] OTHER -> IF Cardinality(Zs) > 1 THEN ChangeZ ELSE Solve

---------------------------------------------------------------------------
Img(zz, s, id) == CHOOSE i \in World[zz][s] : i.id = id
TypeOK == z \in Zs /\ \A i \in DOMAIN hist : hist[i].z \in Zs
\* what is reported are images of that source at the redshift in force, each once, in the order of arrival
Sound ==
  \A n \in DOMAIN hist : LET h == hist[n] IN h.act.op \in {"solve", "bright"} =>
    /\ \A k \in DOMAIN h.result : h.result[k] \in {i.id : i \in World[h.z][h.act.s]} /\ Img(h.z, h.act.s, h.result[k]).m >= h.act.limit
    /\ \A j, k \in DOMAIN h.result : j < k => Img(h.z, h.act.s, h.result[j]).t < Img(h.z, h.act.s, h.result[k]).t
\* and nothing bright enough is left out
Complete ==
  \A n \in DOMAIN hist : LET h == hist[n] IN h.act.op = "solve" =>
    \A i \in World[h.z][h.act.s] : (~i.opt /\ i.m >= h.act.limit) => \E k \in DOMAIN h.result : h.result[k] = i.id
BrightOnes ==
  \A n \in DOMAIN hist : LET h == hist[n] IN h.act.op = "bright" =>
    /\ Len(h.result) <= h.act.k
    /\ \A i \in World[h.z][h.act.s], k \in DOMAIN h.result :
         (~i.opt /\ i.m > Img(h.z, h.act.s, h.result[k]).m) => \E j \in DOMAIN h.result : h.result[j] = i.id
Emit == Len(hist) < Depth \/ PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
