----------------------------- MODULE PixelGrid -----------------------------
(* The coordinate frame of an image: an affine map from pixels to angles.    *)
(*                                                                           *)
(* The frame has a reference (matrix and origin), and offsets relative to    *)
(* the reference: a shift and a rotation in quarter turns about the origin   *)
(* pixel.  Offsets replace earlier offsets; shifting the coordinate system   *)
(* moves the reference itself.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Matrices,   \* reference matrices <<a, b, c, d>> (rows <<a,b>>, <<c,d>>), invertible
          Origins,    \* reference origins
          Shifts,     \* values of a shift in one direction
          Depth

None == 99  \* "not given"
Opt(S) == S \cup {None}
Rots == 0..3
R(q) == CASE q = 0 -> <<1, 0, 0, 1>> [] q = 1 -> <<0, -1, 1, 0>> [] q = 2 -> <<-1, 0, 0, -1>> [] q = 3 -> <<0, 1, -1, 0>>
Mul(A, B) == <<A[1]*B[1] + A[2]*B[3], A[1]*B[2] + A[2]*B[4], A[3]*B[1] + A[4]*B[3], A[3]*B[2] + A[4]*B[4]>>
App(A, v) == <<A[1]*v[1] + A[2]*v[2], A[3]*v[1] + A[4]*v[2]>>
Det(A) == A[1]*A[4] - A[2]*A[3]
Adj(A) == <<A[4], -A[2], -A[3], A[1]>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>

VARIABLES mat, org, sh, rot, hist
vars == <<mat, org, sh, rot, hist>>

Cur == Mul(mat, R(rot))
Zero == Add(org, sh)
Coord(p) == Add(Zero, App(Cur, p))
\* pixel of a coordinate, times the determinant
PixDet(c) == App(Adj(Cur), Sub(c, Zero))

Probes == {<<0, 0>>, <<2, 1>>, <<-1, 3>>}
\* the expected frame after each step
View == [m |-> Cur, zero |-> Zero, probe |-> Coord(<<2, 1>>), det |-> Det(Cur), xy0det |-> PixDet(<<0, 0>>)]
ViewNext == View'
Init == mat \in Matrices /\ org \in Origins /\ sh = <<0, 0>> /\ rot = 0 /\ hist = <<[op |-> "init", m |-> mat, org |-> org, view |-> View]>>

Offsets(a, b, q) ==
  /\ sh' = <<IF a = None THEN sh[1] ELSE a, IF b = None THEN sh[2] ELSE b>>
  /\ rot' = IF q = None THEN rot ELSE q
  /\ UNCHANGED <<mat, org>>
  /\ hist' = Append(hist, [op |-> "offsets", ra |-> a, dec |-> b, rot |-> q, changed |-> (sh' # sh \/ rot' # rot), view |-> View'])

ShiftSystem(v) ==
  /\ org' = Add(org, v) /\ UNCHANGED <<mat, sh, rot>>
  /\ hist' = Append(hist, [op |-> "shift", v |-> v, changed |-> TRUE, view |-> View'])

ShiftPixels(v) ==
  /\ org' = Add(org, App(Cur, v)) /\ UNCHANGED <<mat, sh, rot>>
  /\ hist' = Append(hist, [op |-> "shift_pix", v |-> v, changed |-> TRUE, view |-> View'])

Next ==
  /\ Len(hist) <= Depth
  /\ \/ \E a, b \in Opt(Shifts), q \in Opt(Rots) : Offsets(a, b, q)
     \/ \E v \in Shifts \X Shifts : ShiftSystem(v) \/ ShiftPixels(v)

----------------------------------------------------------------------------
\* pixel -> coordinate -> pixel is the identity
Inverse == \A p \in Probes : PixDet(Coord(p)) = <<Det(Cur) * p[1], Det(Cur) * p[2]>>
\* offsets and shifts never change the area of a pixel
Area == Det(Cur) = Det(mat)
\* going back to zero offsets restores the reference
Reference == sh = <<0, 0>> /\ rot = 0 => Zero = org /\ Cur = mat
\* the same offsets give the same frame, whatever was set before
Emit == (Len(hist) = Depth + 1) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
