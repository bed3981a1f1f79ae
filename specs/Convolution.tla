---------------------------- MODULE Convolution ----------------------------
(* Blurring of an image with a pixelised kernel, and the options that trade *)
(* accuracy for speed.                                                      *)
(*                                                                          *)
(* H is a supersampled image (F sub-pixels per pixel and axis), non-zero in *)
(* a few sub-pixels; K a kernel on the supersampled scale.  A pixel of the  *)
(* regular image is the mean of its sub-pixels.  All values are multiplied  *)
(* by 4 F^2 to stay integer: a kernel element that straddles two pixels     *)
(* (even F) goes half to each.                                              *)
(*   pixel     blur the regular image with the degraded kernel              *)
(*   sub       blur the supersampled image, then average                    *)
(*   split     inner part of the kernel on the supersampled image, the rest *)
(*             degraded on the regular image                                *)
(*   adaptive  as pixel, but the inner part of the kernel is applied on the *)
(*             supersampled image for marked pixels                         *)
(* and, for point sources at arbitrary positions (in quarters of a          *)
(* sub-pixel), the kernel is moved by linear interpolation.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NX, NY, F, R,  \* kernel elements -R .. R on each axis
          Mode,
          Size,          \* size of the inner kernel in pixels (split, adaptive)
          Cut,           \* size in pixels the kernel is cut to, or 0
          Lights         \* number of lit sub-pixels or point sources

Pixels == (0 .. NX - 1) \X (0 .. NY - 1)
Sub == (0 .. NX * F - 1) \X (0 .. NY * F - 1)
Box(n) == (-n .. n) \X (-n .. n)
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Odd(n) == IF n % 2 = 0 THEN n + 1 ELSE n
PixelOf(s) == <<s[1] \div F, s[2] \div F>>

VARIABLES kern,   \* Box(R) -> Int
          lit,    \* sequence of [s, h]: where, and how much
          marked, \* pixels blurred on the supersampled scale (adaptive)
          done
vars == <<kern, lit, marked, done>>

Ring(e) == Max(Abs(e[1]), Abs(e[2]))
Inner == (Odd(Size * F) - 1) \div 2          \* radius of the inner kernel
CutR == IF Cut = 0 THEN R ELSE (Odd(Cut * F) - 1) \div 2
\* the kernel as it is used, its inner and its outer part (on the supersampled scale)
KS(e) == IF Ring(e) <= (IF Mode = "pixel" THEN R ELSE CutR) THEN kern[e] ELSE 0
KIn(e) == IF Ring(e) <= Inner THEN KS(e) ELSE 0
KOut(e) == IF Ring(e) <= Inner THEN 0 ELSE KS(e)

\* twice the share of element e that falls on pixel d, per axis
W(e, d) == LET x == 2 * Abs(e - d * F) IN IF x < F THEN 2 ELSE IF x = F THEN 1 ELSE 0
\* elements that can contribute to pixel offset d
Near(d) == {e \in Box(R) : W(e[1], d[1]) > 0 /\ W(e[2], d[2]) > 0}
RECURSIVE SumK(_, _, _)
SumK(S, part, d) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN
  W(e[1], d[1]) * W(e[2], d[2]) * (CASE part = "all" -> KS(e) [] part = "in" -> KIn(e) [] OTHER -> KOut(e)) + SumK(S \ {e}, part, d)
\* four times the degraded kernel
Deg(part, d) == IF Mode = "pixel" /\ Cut > 0 /\ Ring(d) > (Cut - 1) \div 2 THEN 0 ELSE SumK(Near(d), part, d)
RECURSIVE SumQ(_, _, _)
\* what sub-pixel s sends to the sub-pixels S
SumQ(S, part, s) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN
  LET e == <<q[1] - s[1], q[2] - s[2]>> IN
  (IF Ring(e) > R THEN 0 ELSE CASE part = "all" -> KS(e) [] part = "in" -> KIn(e) [] OTHER -> KOut(e)) + SumQ(S \ {q}, part, s)
SubsOf(p) == {<<p[1] * F + a, p[2] * F + b>> : a \in 0 .. F - 1, b \in 0 .. F - 1}
Off(p, s) == <<p[1] - PixelOf(s)[1], p[2] - PixelOf(s)[2]>>

\* point source at s (quarters of a sub-pixel): 16 times the flux in sub-pixel q
K0(e) == IF Ring(e) > R THEN 0 ELSE kern[e]
Lin(s, q) == LET a == s[1] \div 4 b == s[2] \div 4 fa == s[1] % 4 fb == s[2] % 4 IN
  (4 - fa) * (4 - fb) * K0(<<q[1] - a, q[2] - b>>) + fa * (4 - fb) * K0(<<q[1] - a - 1, q[2] - b>>)
    + (4 - fa) * fb * K0(<<q[1] - a, q[2] - b - 1>>) + fa * fb * K0(<<q[1] - a - 1, q[2] - b - 1>>)
RECURSIVE SumLin(_, _)
SumLin(S, s) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN Lin(s, q) + SumLin(S \ {q}, s)

\* response of pixel p to unit light at s, times 4 F^2 (16 for a point source)
Resp(s, p) == CASE Mode = "pixel" -> Deg("all", Off(p, s))
  [] Mode = "sub" -> 4 * SumQ(SubsOf(p), "all", s)
  [] Mode = "split" -> 4 * SumQ(SubsOf(p), "in", s) + Deg("out", Off(p, s))
  [] Mode = "adaptive" -> Deg("all", Off(p, s)) + (IF PixelOf(s) \in marked THEN 4 * SumQ(SubsOf(p), "in", s) - Deg("in", Off(p, s)) ELSE 0)
  [] Mode = "point" -> SumLin(SubsOf(p), s)
RECURSIVE Blur(_, _)
Blur(p, n) == IF n = 0 THEN 0 ELSE lit[n].h * Resp(lit[n].s, p) + Blur(p, n - 1)
Image == [p \in Pixels |-> Blur(p, Len(lit))]

Rnd(S) == {RandomElement(S)}
Places == IF Mode = "point" THEN (-6 * F .. 4 * F * NX + 6 * F) \X (-6 * F .. 4 * F * NY + 6 * F) ELSE Sub
Init ==
  /\ kern \in {TLCEval([e \in Box(R) |-> IF e = <<0, 0>> THEN RandomElement(3 .. 9) ELSE IF Mode = "point" /\ Ring(e) = R THEN 0 ELSE RandomElement(0 .. 9)])}
  /\ marked \in {{p \in Pixels : f[p] = 1} : f \in {TLCEval([p \in Pixels |-> RandomElement(0 .. 1)])}}
  /\ lit = <<>> /\ done = FALSE
Light == /\ Len(lit) < Lights
         /\ \E x \in Rnd({s[1] : s \in Places}), y \in Rnd({s[2] : s \in Places}), h \in Rnd({-3, 1, 2, 5, 7}) : lit' = Append(lit, [s |-> <<x, y>>, h |-> h])
         /\ UNCHANGED <<kern, marked, done>>
Finish == Len(lit) = Lights /\ ~done /\ done' = TRUE /\ UNCHANGED <<kern, lit, marked>>
Next == Light \/ Finish

---------------------------------------------------------------------------
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN Blur(p, Len(lit)) + Total(S \ {p})
RECURSIVE SumAll(_, _)
SumAll(S, part) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN (CASE part = "all" -> KS(e) [] part = "in" -> KIn(e) [] OTHER -> KOut(e)) + SumAll(S \ {e}, part)
RECURSIVE SumH(_)
SumH(n) == IF n = 0 THEN 0 ELSE lit[n].h + SumH(n - 1)
\* light that cannot reach the edge is conserved: all of it arrives, times the sum of the kernel
FarFromEdge == \A i \in DOMAIN lit : LET s == lit[i].s g == IF Mode = "point" THEN 4 ELSE 1 IN
  /\ s[1] >= g * (R + 2 * F) /\ s[1] <= g * (NX * F - 1 - R - 2 * F)
  /\ s[2] >= g * (R + 2 * F) /\ s[2] <= g * (NY * F - 1 - R - 2 * F)
Conserved == (done /\ FarFromEdge /\ Cut = 0) => Total(Pixels) = SumH(Len(lit)) * SumAll(Box(R), "all") * (IF Mode = "point" THEN 16 ELSE 4)
\* an inner kernel that covers everything is the full supersampled calculation
SplitIsSub == (done /\ Mode = "split" /\ Inner >= R) => \A p \in Pixels : \A i \in DOMAIN lit : Resp(lit[i].s, p) = 4 * SumQ(SubsOf(p), "all", lit[i].s)
Pack(f) == {[k |-> x, v |-> f[x]] : x \in DOMAIN f}
Emit == done => PrintT("@@" \o ToJson([kern |-> Pack(kern), lit |-> lit, marked |-> marked, img |-> Pack(Image)]))
=============================================================================
