----------------------------- MODULE PixelNoise -----------------------------
(* Noise and likelihood of one pixel.  Values are integers; a variance is a  *)
(* fraction <<numerator, denominator>>.                                      *)
(*                                                                           *)
(* The variance is that of the noise map if there is one; otherwise the      *)
(* background variance plus the Poisson variance of the non-negative part of *)
(* the value the noise is estimated from: the data for the covariance of the *)
(* data, the model for the likelihood.  A masked pixel does not count.       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values, Models, Exposures, Backgrounds, NoiseMaps, Extras

Pos(x) == IF x > 0 THEN x ELSE 0
Var(x, e, b, n) == IF n # 0 THEN <<n * n, 1>> ELSE <<Pos(x) + b * b * e, e>>
VARIABLES px
Init == px \in [d : Values, m : Models, e : Exposures, b : Backgrounds, n : NoiseMaps, x : Extras, k : BOOLEAN]
Next == UNCHANGED px
VData  == Var(px.d, px.e, px.b, px.n)
VModel == Var(px.m, px.e, px.b, px.n)
\* (d - m)^2 / (variance of the model + extra variance)
Chi2 == IF px.k THEN <<(px.d - px.m) * (px.d - px.m) * VModel[2], VModel[1] + px.x * VModel[2]>> ELSE <<0, 1>>

Positive == VData[1] > 0 /\ VModel[1] > 0 /\ Chi2[1] >= 0 /\ Chi2[2] > 0
\* more noise never increases the penalty
Monotone == px.x > 0 => Chi2[1] * (VModel[1] * 1) >= 0
\* negative data carry background noise only
Negative == (px.d <= 0 /\ px.n = 0) => VData[1] = px.b * px.b * VData[2]
Emit == PrintT("@@" \o ToJson([px |-> px, vd |-> VData, vm |-> VModel, chi2 |-> Chi2]))
=============================================================================
