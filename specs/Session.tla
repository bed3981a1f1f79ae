------------------------------ MODULE Session ------------------------------
(* A session with one model object: settings are updated, questions are      *)
(* asked, in any order.                                                      *)
(*                                                                           *)
(* The answer to a question is determined by the question, its arguments and *)
(* the current settings - never by what was asked or set before.  The one    *)
(* exception is a result cache the user has switched on: then the answer may *)
(* also be one that was asked for since the cache was last cleared.  While   *)
(* the object is frozen to an argument (static mode), only that argument may *)
(* be used.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,       \* record: setting -> set of its versions (integers; the first is the initial one)
          Args,        \* argument versions
          Queries,     \* questions
          Clearing,    \* settings whose update clears the cache
          WhileFrozen, \* settings that may be updated in static mode
          HasCache, HasFreeze, StartOn,
          Depth, Emitting

Names == DOMAIN Slots
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
VARIABLES cur, on, saved, frozen, hist
vars == <<cur, on, saved, frozen, hist>>

Version(a) == [arg |-> a, set |-> cur]
Allowed(a) == {Version(a)} \cup (IF on THEN saved ELSE {})

Init ==
  /\ cur = [s \in Names |-> MinOf(Slots[s])]
  /\ on = StartOn /\ saved = {} /\ frozen = 0 /\ hist = <<>>

Rec(r) == hist' = Append(hist, r)

Update(s, v) ==
  /\ frozen = 0 \/ s \in WhileFrozen
  /\ cur' = [cur EXCEPT ![s] = v]
  /\ saved' = IF s \in Clearing THEN {} ELSE saved
  /\ UNCHANGED <<on, frozen>>
  /\ Rec([op |-> "set", name |-> s, value |-> v])

Ask(q, a) ==
  /\ frozen \in {0, a}
  /\ saved' = IF on THEN saved \cup {Version(a)} ELSE saved
  /\ UNCHANGED <<cur, on, frozen>>
  /\ Rec([op |-> "ask", q |-> q, a |-> a, allowed |-> Allowed(a)])

Switch(b) ==
  /\ HasCache
  /\ on' = b /\ saved' = (IF b THEN saved ELSE {}) /\ UNCHANGED <<cur, frozen>>
  /\ Rec([op |-> "switch", value |-> b])

Clear ==
  /\ HasCache
  /\ saved' = {} /\ UNCHANGED <<cur, on, frozen>>
  /\ Rec([op |-> "clear"])

Freeze(a) ==
  /\ HasFreeze          \* also while frozen: the object is frozen anew
  /\ frozen' = a /\ UNCHANGED <<cur, on, saved>>
  /\ Rec([op |-> "freeze", a |-> a])

Thaw ==
  /\ HasFreeze /\ frozen # 0
  /\ frozen' = 0 /\ UNCHANGED <<cur, on, saved>>
  /\ Rec([op |-> "thaw"])

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E s \in Names : \E v \in Slots[s] : Update(s, v)
     \/ \E q \in Queries, a \in Args : Ask(q, a)
     \/ \E b \in BOOLEAN : Switch(b)
     \/ Clear
     \/ \E a \in Args : Freeze(a)
     \/ Thaw

----------------------------------------------------------------------------
Last == hist[Len(hist)]
IsAsk == Len(hist) > 0 /\ Last.op = "ask"
\* without a cache the answer is a function of the current settings and the argument
NoMemory == (IsAsk /\ ~on) => Last.allowed = {[arg |-> Last.a, set |-> cur]}
\* a cached answer was asked for, under the cache, after the last clearing
CacheHonest == \A v \in saved : \E i \in DOMAIN hist :
     /\ hist[i].op = "ask" /\ hist[i].a = v.arg
     /\ \A j \in (i + 1)..Len(hist) : hist[j].op # "clear" /\ (hist[j].op = "switch" => hist[j].value) /\ (hist[j].op = "set" => hist[j].name \notin Clearing)
Emit == (Emitting /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
