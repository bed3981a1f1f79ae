----------------------------- MODULE Likelihood -----------------------------
(* The likelihood of a parameter vector: which terms count.                  *)
(*                                                                           *)
(* A configuration switches terms on and off.  Outside the limits of the     *)
(* parameters (when they are checked) nothing is evaluated; a custom term    *)
(* that rejects the model leaves no other term; otherwise the likelihood is  *)
(* the sum of the terms switched on - each once, each for exactly the bands, *)
(* pixels, delays, fluxes and images declared - and the number of data       *)
(* counts the same bands, pixels, delays, fluxes and positions.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bands,      \* imaging bands
          Images,     \* sequence: number of images of each lensed point source
          Priors,     \* names of the priors that can be given
          Depth

Sources == DOMAIN Images
Delays(s) == 1..(Images[s] - 1)
Custom == {"none", "value", "veto"}
SrcPos == {"default", "on", "off"}

VARIABLES c, step
vars == <<c, step>>

Fields == {"inside", "checked", "custom", "image", "bands", "masks", "undefined", "delay", "delaycov", "delaymask", "flux", "fluxcov", "fluxon", "astro",
           "imgpos", "srcpos", "tolerance", "noadd", "restrict", "priors"}
Rnd(S) == CHOOSE x \in {RandomElement(S)} : TRUE
Choice(f) ==
  CASE f \in {"inside", "checked", "image", "undefined", "delay", "delaycov", "flux", "fluxcov", "astro", "imgpos", "noadd"} -> BOOLEAN
    [] f = "custom" -> Custom
    [] f = "bands" -> (SUBSET Bands) \ {{}}
    [] f = "masks" -> SUBSET Bands
    [] f = "delaymask" -> {[s \in Sources |-> Rnd(SUBSET Delays(s))]}
    [] f = "fluxon" -> SUBSET Sources
    [] f = "srcpos" -> SrcPos
    [] f = "tolerance" -> {0, 1, 2}
    [] f = "restrict" -> {0, 2, 4, 5}
    [] f = "priors" -> {Rnd(SUBSET Priors)}

Base == [inside |-> TRUE, checked |-> TRUE, custom |-> "none", image |-> TRUE, bands |-> Bands, masks |-> {}, undefined |-> FALSE, delay |-> FALSE, delaycov |-> FALSE,
         delaymask |-> [s \in Sources |-> Delays(s)], flux |-> FALSE, fluxcov |-> FALSE, fluxon |-> Sources, astro |-> FALSE, imgpos |-> FALSE, srcpos |-> "default",
         tolerance |-> 0, noadd |-> FALSE, restrict |-> 0, priors |-> {}]

T(t, s, i) == [t |-> t, s |-> s, i |-> i]
SrcOn == c.srcpos # "off"   \* "default": on when image positions of a source are modelled
Terms ==
  LET img   == IF c.image THEN {T("image", ToString(b), IF b \in c.masks THEN 1 ELSE 0) : b \in c.bands} ELSE {}
      del   == IF c.delay THEN {T("delay", ToString(s), 0) : s \in {x \in Sources : c.delaymask[x] # {}}} ELSE {}
      flx   == IF c.flux THEN {T("flux", ToString(s), 0) : s \in c.fluxon} ELSE {}
      ast   == IF c.astro THEN {T("astro", "1", 0)} ELSE {}
      pos   == IF c.imgpos THEN {T("imgpos", ToString(s), 0) : s \in Sources} ELSE {}
      src   == IF SrcOn THEN UNION {{T("srcpos", ToString(s), i) : i \in 1..Images[s]} : s \in Sources} ELSE {}
      tol   == IF SrcOn /\ c.tolerance # 0 THEN UNION {{T("tolerance", ToString(s), i) : i \in 1..Images[s]} : s \in Sources} ELSE {}
      add   == IF c.noadd THEN {T("additional", "any", 0)} ELSE {}
      res   == IF c.restrict # 0 THEN {T("number", "1", c.restrict)} ELSE {}
      pri   == {T("prior", p, 0) : p \in c.priors}
      cus   == IF c.custom # "none" THEN {T("custom", c.custom, 0)} ELSE {}
  IN IF c.checked /\ ~c.inside THEN {T("limits", "", 0)}
     ELSE IF c.custom = "veto" THEN cus
     ELSE img \cup del \cup flx \cup ast \cup pos \cup src \cup tol \cup add \cup res \cup pri \cup cus

RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
\* data other than pixels
NumOther ==
  (IF c.delay THEN Sum(Sources, [s \in Sources |-> Cardinality(c.delaymask[s])]) ELSE 0)
  + (IF c.flux THEN Sum(c.fluxon, [s \in Sources |-> Images[s] - 1]) ELSE 0)
  + (IF c.imgpos THEN Sum(Sources, [s \in Sources |-> 2 * Images[s]]) ELSE 0)
PixelBands == IF c.image THEN c.bands ELSE {}

Init == c = Base /\ step = 0
Next == /\ step < Depth
        /\ \E f \in Fields : \E v \in Choice(f) : c' = [c EXCEPT ![f] = v]
        /\ step' = step + 1

----------------------------------------------------------------------------
On(f) == IF f \in {"inside", "checked"} THEN TRUE ELSE FALSE
\* the sum is that of the single switches
Limits == (c.checked /\ ~c.inside) <=> \E x \in Terms : x.t = "limits"
Veto == c.custom = "veto" => \A x \in Terms : x.t \in {"limits", "custom"}
Bare == (~c.checked \/ c.inside) /\ c.custom # "veto" => {x.s : x \in {y \in Terms : y.t = "prior"}} = c.priors
BandsOnce == (~c.checked \/ c.inside) /\ c.custom # "veto" /\ c.image => Cardinality({x \in Terms : x.t = "image"}) = Cardinality(c.bands)
Emit == PrintT("@@" \o ToJson([step |-> step, c |-> c, terms |-> Terms, other |-> NumOther]))
=============================================================================
