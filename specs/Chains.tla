------------------------------- MODULE Chains -------------------------------
(* Chains of an ensemble sampler, with and without a file that keeps them.   *)
(* A step of the chain is named by a number; the positions of all walkers at *)
(* a step are one block of samples.  A run with a file either starts it anew *)
(* or carries on from its last step.  What a run returns are the steps of    *)
(* the chain without the first n_burn.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Files, MaxRun, MaxBurn, Depth
VARIABLES file,   \* file -> sequence of steps
          steps,  \* steps made so far
          hist
vars == <<file, steps, hist>>
NewSteps(n) == [i \in 1 .. n |-> steps + i]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Init == file = [f \in Files |-> <<>>] /\ steps = 0 /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Plain(b, n) == /\ steps' = steps + b + n /\ UNCHANGED file
               /\ Log([op |-> "plain", f |-> "", burn |-> b, run |-> n, out |-> Drop(NewSteps(b + n), b), kept |-> <<>>])
Anew(f, b, n) == /\ steps' = steps + b + n /\ file' = [file EXCEPT ![f] = NewSteps(b + n)]
                 /\ Log([op |-> "anew", f |-> f, burn |-> b, run |-> n, out |-> Drop(NewSteps(b + n), b), kept |-> file'[f]])
Resume(f, b, n) == /\ file[f] # <<>>
                   /\ steps' = steps + n /\ file' = [file EXCEPT ![f] = @ \o NewSteps(n)]
                   /\ Log([op |-> "resume", f |-> f, burn |-> b, run |-> n, out |-> Drop(file'[f], b), kept |-> file'[f]])
Rnd(S) == {RandomElement(S)}
Next == Len(hist) < Depth /\ \E w \in Rnd(1 .. 6), f \in Rnd(Files), b \in Rnd(0 .. MaxBurn), n \in Rnd(1 .. MaxRun) :
  CASE w = 1 -> Plain(b, n) [] w <= 3 -> Anew(f, b, n) [] OTHER -> IF file[f] # <<>> THEN Resume(f, b, n) ELSE Anew(f, b, n)

---------------------------------------------------------------------------
InOrder == \A f \in Files : \A i \in DOMAIN file[f] : i = 1 \/ file[f][i] > file[f][i - 1]
Suffix == \A i \in DOMAIN hist : hist[i].op = "plain" \/ hist[i].out = Drop(hist[i].kept, hist[i].burn)
Carried == \A i \in DOMAIN hist : hist[i].op = "resume" => \E j \in 1 .. i - 1 : hist[j].f = hist[i].f /\ Len(hist[i].kept) = Len(hist[j].kept) + hist[i].run
             /\ SubSeq(hist[i].kept, 1, Len(hist[j].kept)) = hist[j].kept
Emit == Len(hist) < Depth \/ PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
