------------------------------ MODULE Aperture ------------------------------
(* Spectroscopic apertures and image masks: which segment a position on the *)
(* sky belongs to, which positions sample a segment, and what is measured   *)
(* in it.                                                                   *)
(*                                                                          *)
(* Everything is integer geometry.  An aperture is described in its own     *)
(* frame (unit u, pixels of D units), turned by an angle with cosine        *)
(* rot[1]/5 and sine rot[2]/5 and moved to its centre.  Sky positions are   *)
(* integers in u/5; turned back to the frame they are integers in u/25.     *)
(* Photons arrive one by one and are counted in the segment they hit; a map *)
(* sampled on the (supersampled, padded) grid is averaged over segments.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,    \* slit frame shell shells grid binned general disc ring ellipse
          Depth    \* photons and measurements
D == 12
Rots == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<3, 4>>, <<4, -3>>, <<-3, 4>>, <<-4, -3>>, <<0, -5>>}
Turned == Kind \in {"slit", "frame", "grid", "binned", "ellipse"}
Centred == Kind \notin {"grid", "binned", "general"}
Masks == {"disc", "ring", "ellipse"}
Abs(x) == IF x < 0 THEN -x ELSE x

VARIABLES ap, hist, count
vars == <<ap, hist, count>>

Pixels(a) == (0 .. a.nx - 1) \X (0 .. a.ny - 1)
\* centre of a pixel in the frame of the aperture
First(a) == IF Kind \in {"grid", "binned", "general"} \cup Masks THEN a.o ELSE <<(1 - a.nx) * (D \div 2), (1 - a.ny) * (D \div 2)>>
Local(a, p) == <<First(a)[1] + p[1] * a.s[1] * D, First(a)[2] + p[2] * a.s[2] * D>>
\* centre of a sub-pixel, counted from the first one of the first pixel
Sub(a, f, g) == <<First(a)[1] + a.s[1] * (((2 * g[1] + 1 - f) * D) \div (2 * f)), First(a)[2] + a.s[2] * (((2 * g[2] + 1 - f) * D) \div (2 * f))>>
Sky(a, l) == <<5 * a.c[1] + a.rot[1] * l[1] - a.rot[2] * l[2], 5 * a.c[2] + a.rot[2] * l[1] + a.rot[1] * l[2]>>
\* back to the frame, in u/25
Back(a, q) == LET x == q[1] - 5 * a.c[1]  y == q[2] - 5 * a.c[2] IN <<a.rot[1] * x + a.rot[2] * y, a.rot[1] * y - a.rot[2] * x>>
Dist2(a, q) == LET x == q[1] - 5 * a.c[1]  y == q[2] - 5 * a.c[2] IN x * x + y * y     \* in (u/5)^2
None == -1

---------------------------------------------------------------------------
\* segment of a sky position
InBox(u, wx, wy) == 2 * Abs(u[1]) < 25 * wx /\ 2 * Abs(u[2]) < 25 * wy
OnBox(u, wx, wy) == 2 * Abs(u[1]) = 25 * wx \/ 2 * Abs(u[2]) = 25 * wy
Hit(a, u) == {p \in Pixels(a) : InBox(<<u[1] - 25 * Local(a, p)[1], u[2] - 25 * Local(a, p)[2]>>, D, D)}
Number(a, p) == p[2] * a.nx + p[1]
Shells(a) == {k \in 1 .. Len(a.r) - 1 : TRUE}
Select(a, q) ==
  LET u == Back(a, q) IN
  CASE Kind = "slit" -> IF InBox(u, a.nx * D, a.ny * D) THEN 0 ELSE None
    [] Kind = "frame" -> IF InBox(u, a.nx * D, a.nx * D) /\ ~InBox(u, a.win, a.win) THEN 0 ELSE None
    [] Kind \in {"shell", "shells", "ring"} ->
         LET S == {k \in Shells(a) : 25 * a.r[k] * a.r[k] <= Dist2(a, q) /\ Dist2(a, q) < 25 * a.r[k + 1] * a.r[k + 1]} IN IF S = {} THEN None ELSE (CHOOSE k \in S : TRUE) - 1
    [] Kind = "disc" -> IF Dist2(a, q) <= 25 * a.r[1] * a.r[1] THEN 0 ELSE None
    [] Kind = "ellipse" -> IF u[1] * u[1] * a.r[2] * a.r[2] + u[2] * u[2] * a.r[1] * a.r[1] <= 625 * a.r[1] * a.r[1] * a.r[2] * a.r[2] THEN 0 ELSE None
    [] OTHER -> IF Hit(a, u) = {} THEN None ELSE LET p == CHOOSE p \in Hit(a, u) : TRUE IN a.bins[p]
\* positions on a border are nobody's business
Edge(a, q) ==
  LET u == Back(a, q) IN
  CASE Kind = "slit" -> OnBox(u, a.nx * D, a.ny * D)
    [] Kind = "frame" -> OnBox(u, a.nx * D, a.nx * D) \/ OnBox(u, a.win, a.win)
    [] Kind \in {"shell", "shells", "ring", "disc"} -> \E k \in 1 .. Len(a.r) : Dist2(a, q) = 25 * a.r[k] * a.r[k]
    [] Kind = "ellipse" -> u[1] * u[1] * a.r[2] * a.r[2] + u[2] * u[2] * a.r[1] * a.r[1] = 625 * a.r[1] * a.r[1] * a.r[2] * a.r[2]
    [] OTHER -> \E p \in Pixels(a) : OnBox(<<u[1] - 25 * Local(a, p)[1], u[2] - 25 * Local(a, p)[2]>>, D, D)

\* segment of a pixel, in the frame of the aperture
Bin(a, p) ==
  LET l == Local(a, p) IN
  CASE Kind = "slit" -> 0
    [] Kind = "frame" -> IF 2 * Abs(l[1]) < a.win /\ 2 * Abs(l[2]) < a.win THEN None ELSE 0
    [] Kind \in {"shell", "shells"} ->
         LET S == {k \in Shells(a) : a.r[k] * a.r[k] <= l[1] * l[1] + l[2] * l[2] /\ l[1] * l[1] + l[2] * l[2] < a.r[k + 1] * a.r[k + 1]} IN
         IF S = {} THEN None ELSE (CHOOSE k \in S : TRUE) - 1
    [] OTHER -> IF Kind \in Masks THEN Select(a, Sky(a, l)) ELSE a.bins[p]
Bins(a) == {Bin(a, p) : p \in Pixels(a)} \ {None}

---------------------------------------------------------------------------
\* a map on the sampled grid, and its mean over the segments
V(f, g) == ((3 * g[1] + 7 * g[2] + 2 * g[1] * g[2] + f) % 23) - 5
Pad(a, f) == IF a.pad = 0 THEN 0 ELSE ((2 * a.pad + 1) * f) \div (2 * a.padf)
Grid(a, f) == ((-Pad(a, f)) .. (a.nx * f + Pad(a, f) - 1)) \X ((-Pad(a, f)) .. (a.ny * f + Pad(a, f) - 1))
Owner(f, g) == <<g[1] \div f, g[2] \div f>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET g == CHOOSE g \in S : TRUE IN V(f, g) + Sum(f, S \ {g})
Of(a, f, p) == {g \in Grid(a, f) : Owner(f, g) = p}
RECURSIVE Total(_, _, _)
Total(a, f, P) == IF P = {} THEN 0 ELSE LET p == CHOOSE p \in P : TRUE IN Sum(f, Of(a, f, p)) + Total(a, f, P \ {p})
Members(a, b) == {p \in Pixels(a) : Bin(a, p) = b}

---------------------------------------------------------------------------
SetToSeq(S) == IF Cardinality(S) = 1 THEN <<CHOOSE x \in S : TRUE>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m, CHOOSE x \in S : x # m>>
Draw(nx, ny) ==
  \E rot \in {IF Turned THEN RandomElement(Rots) ELSE <<5, 0>>}, c \in {IF Centred THEN RandomElement((-20 .. 20) \X (-20 .. 20)) ELSE <<0, 0>>},
     s \in {IF Kind \in {"grid", "binned", "general"} THEN RandomElement({<<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>}) ELSE <<1, 1>>},
     o \in {RandomElement((-40 .. 20) \X (-40 .. 20))}, win \in {RandomElement(1 .. (D * nx - 1))},
     r1 \in {RandomElement(0 .. 15)}, r2 \in {RandomElement(1 .. 20)}, r3 \in {RandomElement(1 .. 15)},
     bins \in {TLCEval([p \in (0 .. nx - 1) \X (0 .. ny - 1) |-> IF Kind = "grid" THEN p[2] * nx + p[1] ELSE RandomElement(-1 .. 3)])},
     pad \in {RandomElement(0 .. 2)}, padf \in {RandomElement(1 .. 3)} :
  LET rmax == (nx * D) \div 2  \* shells: the grid is as wide as the outermost shell
      rad == IF Kind = "shell" THEN <<r1 % rmax, rmax>>
             ELSE IF Kind = "shells" THEN LET b == SetToSeq({r1 % rmax, (r1 + r2) % rmax}) IN Append(b, rmax)
             ELSE IF Kind = "ring" THEN <<r1, r1 + r2>> ELSE <<r2 + 3, r3 + 3>>
  IN ap = [nx |-> nx, ny |-> IF Kind \in {"frame", "shell", "shells"} THEN nx ELSE ny, rot |-> rot, c |-> c, s |-> s, o |-> o, win |-> win, r |-> rad, bins |-> bins, pad |-> IF Kind = "general" THEN 0 ELSE pad, padf |-> padf]
Init == /\ \E nx \in {RandomElement(2 .. 6)}, ny \in {RandomElement(2 .. 5)} : Draw(nx, ny)
        /\ hist = <<>> /\ count = [b \in {} |-> 0]
\* the aperture is well defined: no pixel centre on a border, bins are numbered without gaps
Proper(a) == /\ \A p \in Pixels(a) : ~Edge(a, Sky(a, Local(a, p)))
             /\ Bins(a) # {} /\ Bins(a) = 0 .. (CHOOSE m \in Bins(a) : \A b \in Bins(a) : b <= m)
Photon == \E l \in {RandomElement((-50 .. 50) \X (-50 .. 50))}, e \in {RandomElement((-2 .. 2) \X (-2 .. 2))}, p \in {RandomElement(Pixels(ap))} :
  \E q \in {IF RandomElement(1 .. 3) = 1 THEN Sky(ap, l) ELSE <<Sky(ap, Local(ap, p))[1] + 11 * e[1], Sky(ap, Local(ap, p))[2] + 13 * e[2]>>} :
  /\ ~Edge(ap, q)
  /\ LET b == Select(ap, q) IN
     /\ hist' = Append(hist, [op |-> "photon", q |-> q, bin |-> b, pix |-> IF Kind = "grid" /\ b # None THEN CHOOSE x \in Hit(ap, Back(ap, q)) : TRUE ELSE <<>>])
     /\ count' = IF b = None THEN count ELSE [x \in DOMAIN count \cup {b} |-> IF x = b THEN (IF b \in DOMAIN count THEN count[b] ELSE 0) + 1 ELSE count[x]]
  /\ UNCHANGED ap
Measure == \E f \in {IF Kind = "general" THEN 1 ELSE RandomElement(1 .. 3)} :
  /\ Kind \notin Masks
  /\ ((2 * ap.pad + 1) * f) % (2 * ap.padf) # 0 \/ ap.pad = 0
  /\ hist' = Append(hist, [op |-> "measure", f |-> f, pad |-> Pad(ap, f), pts |-> {[g |-> g, q |-> Sky(ap, Sub(ap, f, g)), v |-> V(f, g)] : g \in Grid(ap, f)},
                           sums |-> {[b |-> b, sum |-> Total(ap, f, Members(ap, b)), n |-> Cardinality(Members(ap, b)) * f * f] : b \in Bins(ap)}])
  /\ UNCHANGED <<ap, count>>
Next == /\ Len(hist) < Depth /\ Proper(ap) /\ \E k \in {RandomElement(1 .. 4)} : IF k = 1 /\ Kind \notin Masks THEN Measure ELSE Photon

---------------------------------------------------------------------------
\* a pixel belongs to the segment that selects its centre
SelectBins == Proper(ap) => \A p \in Pixels(ap) : Bin(ap, p) = Select(ap, Sky(ap, Local(ap, p)))
\* no position belongs to two pixels
OnePixel == \A k \in 1 .. Len(hist) : hist[k].op = "photon" => Cardinality(Hit(ap, Back(ap, hist[k].q))) <= 1
\* samples of a pixel lie in it, and are centred on it
SamplesInside == \A f \in 1 .. 3 : \A p \in Pixels(ap) :
  /\ Cardinality(Of(ap, f, p)) = f * f
  /\ \A g \in Of(ap, f, p) : \A i \in 1 .. 2 : 2 * Abs(Sub(ap, f, g)[i] - Local(ap, p)[i]) < D
\* nothing is lost: every photon in the aperture is in one segment
RECURSIVE Add(_, _)
Add(f, S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN f[b] + Add(f, S \ {b})
Counted == Add(count, DOMAIN count) = Cardinality({k \in 1 .. Len(hist) : hist[k].op = "photon" /\ hist[k].bin # None})
\* the segments share out the sum of a map over the pixels that are not excluded
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN e.sum + SumOf(S \ {e})
Conserved == \A k \in 1 .. Len(hist) : hist[k].op = "measure" => SumOf(hist[k].sums) = Total(ap, hist[k].f, {p \in Pixels(ap) : Bin(ap, p) # None})
Emit == Len(hist) = Depth =>
  PrintT("@@" \o ToJson([ap |-> [ap EXCEPT !.bins = 0], px |-> {[p |-> p, q |-> Sky(ap, Local(ap, p)), b |-> Bin(ap, p)] : p \in Pixels(ap)}, hist |-> hist,
                         count |-> {<<b, count[b]>> : b \in DOMAIN count}]))
=============================================================================
