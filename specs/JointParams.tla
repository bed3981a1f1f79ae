----------------------------- MODULE JointParams -----------------------------
(* How a sampled vector becomes a model: declared joint parameters, scaling  *)
(* of lens parameters, and positions declared in the image plane.            *)
(*                                                                           *)
(* Values are symbolic terms.  The model is built stage by stage, in the     *)
(* documented hierarchy; each step applies one declaration of the current    *)
(* stage.  The end state holds, for every parameter, the term it must equal  *)
(* in the sampling convention (bij) and in the physical convention (phys).   *)
EXTENDS Integers, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS
  Slots,      \* all parameters
  Pool,       \* sequence of declarations [stage, pairs: Seq(<<from, to>>)]; the order is the order of the lists
  Stages,     \* sequence of stage names in hierarchy order
  MassOpts,   \* set of functions: lens component (string) -> group number (0: not scaled)
  GenOpts,    \* set of functions: scaled parameter name -> (lens component -> group)
  LensOf,     \* [lens slots -> component (string)]
  NameOf,     \* [slots -> parameter name]
  MassName,   \* parameter name that mass scaling acts on
  CompOf,     \* [source slots -> source component]
  SrcOf,      \* [source position slots -> source component]
  Sources,    \* set of source components
  AxisOf,     \* [source position slots -> "x" or "y"]
  PosOf,      \* [source component -> [x |-> slot, y |-> slot]]
  LensPosPS,  \* point-source slots that are image positions (vectors): mapped / averaged
  Fixable,    \* slots the user may fix
  ZOpts, MaxDecl, MaxFix, Samples

VARIABLES decls, ip, mass, gen, z, fixed, pc, stage, bij, phys
vars == <<decls, ip, mass, gen, z, fixed, pc, stage, bij, phys>>

To(d) == {Pool[d].pairs[q][2] : q \in DOMAIN Pool[d].pairs}
From(d) == {Pool[d].pairs[q][1] : q \in DOMAIN Pool[d].pairs}
Dependents(D) == UNION {To(d) : d \in D}

\* one declaration per dependent; a partner that is itself dependent must be settled before it is used
Valid(D) ==
  /\ \A a, b \in D : a # b => To(a) \cap To(b) = {}
  /\ \A a, b \in D : To(a) \cap From(b) # {} => a < b
  /\ \A a \in D : To(a) \cap From(a) = {}
\* a source linked to a lens model cannot be positioned in the image plane, nor follow a point source
LensSourceOK(D, I) ==
  \A a \in D : Pool[a].stage = "lens_source" =>
     \A s \in From(a) : CompOf[s] \notin I
\* a position given in the image plane must be sampled, not dependent
ImagePlaneOK(D, I) == \A s \in DOMAIN SrcOf : SrcOf[s] \in I => s \notin Dependents(D)

Own(s) == [t |-> "own", p |-> s]

Init ==
  \E k \in 1..Samples :
  \E D \in {RandomSubset(k % (MaxDecl + 1), DOMAIN Pool)}, I \in {RandomElement(SUBSET Sources)}, M \in {RandomElement(MassOpts)},
     G \in {RandomElement(GenOpts)}, Z \in {RandomElement(ZOpts)}, F \in {RandomSubset((k * 7) % (MaxFix + 1), Fixable)} :
  /\ Valid(D) /\ LensSourceOK(D, I) /\ ImagePlaneOK(D, I)
  /\ decls = D /\ ip = I /\ mass = M /\ gen = G /\ z = Z
  /\ fixed = F \ Dependents(D)
  /\ pc = 1 /\ stage = 1
  /\ bij = [s \in Slots |-> Own(s)] /\ phys = [s \in Slots |-> Own(s)]

Cur == Stages[stage]
\* value the dependent adopts from its partner
Adopt(m, from, to) ==
  IF from \in LensPosPS
  THEN IF to \in DOMAIN SrcOf THEN [t |-> "rayps", ax |-> AxisOf[to], p |-> from, src |-> SrcOf[to]]
       ELSE [t |-> "mean", p |-> from]
  ELSE m[from]
Assign(m, d) ==
  [s \in Slots |->
     IF \E q \in DOMAIN Pool[d].pairs : Pool[d].pairs[q][2] = s
     THEN LET q == CHOOSE q \in DOMAIN Pool[d].pairs : Pool[d].pairs[q][2] = s
          IN Adopt(m, Pool[d].pairs[q][1], s)
     ELSE m[s]]

Declare ==
  /\ Cur \notin {"scaling", "image_plane"}
  /\ pc <= Len(Pool)
  /\ IF pc \in decls /\ Pool[pc].stage = Cur
     THEN bij' = Assign(bij, pc) /\ phys' = Assign(phys, pc)
     ELSE UNCHANGED <<bij, phys>>
  /\ pc' = pc + 1
  /\ UNCHANGED <<decls, ip, mass, gen, z, fixed, stage>>

MassG(s) == IF s \in DOMAIN LensOf /\ NameOf[s] = MassName /\ LensOf[s] \in DOMAIN mass THEN mass[LensOf[s]] ELSE 0
GenG(s) == IF s \in DOMAIN LensOf /\ NameOf[s] \in DOMAIN gen /\ LensOf[s] \in DOMAIN gen[NameOf[s]] THEN gen[NameOf[s]][LensOf[s]] ELSE 0
Scaled(s, x) ==
  LET y == IF MassG(s) = 0 THEN x ELSE [t |-> "mass", g |-> MassG(s), x |-> x]
  IN IF GenG(s) = 0 THEN y ELSE [t |-> "gen", n |-> NameOf[s], g |-> GenG(s), x |-> y]

\* scaling applies to the physical model only
Scaling ==
  /\ Cur = "scaling"
  /\ phys' = [s \in Slots |-> Scaled(s, phys[s])]
  /\ stage' = stage + 1 /\ pc' = 1
  /\ UNCHANGED <<decls, ip, mass, gen, z, fixed, bij>>

ImagePlane ==
  /\ Cur = "image_plane"
  /\ phys' = [s \in Slots |->
       IF s \in DOMAIN SrcOf /\ SrcOf[s] \in ip
       THEN [t |-> "ray", ax |-> AxisOf[s], x |-> phys[PosOf[SrcOf[s]].x], y |-> phys[PosOf[SrcOf[s]].y], src |-> SrcOf[s]]
       ELSE phys[s]]
  /\ stage' = stage + 1 /\ pc' = 1
  /\ UNCHANGED <<decls, ip, mass, gen, z, fixed, bij>>

NextStage ==
  /\ Cur \notin {"scaling", "image_plane"} /\ pc > Len(Pool) /\ stage < Len(Stages)
  /\ stage' = stage + 1 /\ pc' = 1
  /\ UNCHANGED <<decls, ip, mass, gen, z, fixed, bij, phys>>

Next == Declare \/ Scaling \/ ImagePlane \/ NextStage
Final == stage = Len(Stages) /\ pc > Len(Pool)

--------------------------------------------------------------------------
Sampled == Slots \ (Dependents(decls) \cup fixed)
\* dependents hold the value of their partner in the sampling convention
JointHolds == Final => \A d \in decls : \A q \in DOMAIN Pool[d].pairs :
   LET f == Pool[d].pairs[q][1]  t == Pool[d].pairs[q][2] IN f \notin LensPosPS => bij[t] = bij[f]
\* no dependent keeps a value of its own; every other parameter keeps its own in the sampling convention
OwnOnly == Final => \A s \in Slots : (bij[s] = Own(s)) <=> (s \notin Dependents(decls))
\* physical and sampling convention agree where nothing is scaled or mapped
Agree == (Final /\ ip = {} /\ \A s \in DOMAIN LensOf : MassG(s) = 0 /\ GenG(s) = 0) => bij = phys
Emit == Final => PrintT("@@" \o ToJson([decls |-> decls, ip |-> ip, mass |-> mass, gen |-> gen, z |-> z,
     fixed |-> fixed, sampled |-> Sampled, bij |-> bij, phys |-> phys]))
=============================================================================
