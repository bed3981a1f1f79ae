------------------------------- MODULE Swarm -------------------------------
(* Particle swarm optimisation as seen from outside: N particles are        *)
(* evaluated in every iteration, each remembers the best position it has    *)
(* visited, the swarm the best position anyone has visited, the starting    *)
(* point included.  A position is named by when it was evaluated: the k-th  *)
(* evaluation; 0 is the starting point.  BOT stands for a position that     *)
(* cannot be the best (minus infinity).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MaxIter, Tol, \* stop when -2 * best < Tol (0: never)
          Starts           \* possible values of the starting point
BOT == -1000000
VARIABLES val,   \* evaluation -> value
          it,    \* iterations made (the swarm is evaluated once before the first)
          gb,    \* best evaluation
          pb,    \* particle -> its best evaluation
          gbs,   \* gb after each iteration
          end
vars == <<val, it, gb, pb, gbs, end>>
At(k) == IF k = 0 THEN val[1] ELSE val[k + 1]
Better(a, b) == IF At(b) > At(a) THEN b ELSE a
\* values are distinct, so that the best is unique
Values == -60 .. -1
Fresh == Values \ {val[i] : i \in DOMAIN val}
RECURSIVE Draw(_, _, _)
Draw(n, used, acc) == IF n = 0 THEN acc
  ELSE LET v == IF RandomElement(1 .. 8) = 1 THEN BOT ELSE RandomElement(Values \ used)
       IN Draw(n - 1, used \cup {v}, Append(acc, v))
RECURSIVE Best(_, _)
Best(b, k) == IF k + 1 > Len(val') THEN b
  ELSE Best(IF val'[k + 1] > (IF b = 0 THEN val'[1] ELSE val'[b + 1]) THEN k ELSE b, k + 1)

Init == /\ \E v \in {RandomElement(Starts)} : val = <<v>>
        /\ it = -1 /\ gb = 0 /\ pb = [p \in 1 .. N |-> 0] /\ gbs = <<>> /\ end = "no"
Evaluate ==
  /\ end = "no"
  /\ \E new \in {TLCEval(Draw(N, {val[i] : i \in DOMAIN val}, <<>>))} : val' = val \o new
  /\ it' = it + 1
  /\ LET first == N * (it + 1) IN
     /\ gb' = Best(gb, first + 1)
     /\ pb' = [p \in 1 .. N |-> IF it = -1 \/ val'[first + p + 1] > val'[pb[p] + 1] THEN first + p ELSE pb[p]]
  /\ gbs' = Append(gbs, gb')
  /\ end' = IF it' >= MaxIter THEN "max" ELSE IF Tol > 0 /\ -2 * val'[gb' + 1] < Tol THEN "tol" ELSE "no"
Next == Evaluate

---------------------------------------------------------------------------
BestOfAll == \A i \in DOMAIN val : val[i] <= val[gb + 1]
OwnBest == it >= 0 => \A p \in 1 .. N : \A j \in 0 .. it : val[N * j + p + 1] <= val[pb[p] + 1]
SwarmBest == it >= 0 => \A p \in 1 .. N : val[pb[p] + 1] <= val[gb + 1]
NeverWorse == \A i \in DOMAIN gbs : i = 1 \/ val[gbs[i] + 1] >= val[gbs[i - 1] + 1]
Stops == (end = "tol" => -2 * val[gb + 1] < Tol) /\ (end = "max" => it = MaxIter)
Emit == end = "no" \/ PrintT("@@" \o ToJson([val |-> val, it |-> it, gb |-> gb, pb |-> pb, gbs |-> gbs, end |-> end]))
=============================================================================
