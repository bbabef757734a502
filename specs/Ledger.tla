------------------------------- MODULE Ledger -------------------------------
(* What a library call may take and what it must give back.                   *)
(*                                                                            *)
(* Blocks of memory and open files are taken and given back while a call is   *)
(* under way.  Calls make an object (and may fail), work on one, fill one     *)
(* anew, or release one.  Rules of every call, whether it succeeds or fails   *)
(* at any point of its work:                                                  *)
(*   - files it opened are closed when it returns;                            *)
(*   - it releases only blocks it took itself or blocks of its own object,    *)
(*     each once;                                                             *)
(*   - what is left when it returns belongs to the object made or filled;     *)
(*     a call that only works, and one that failed to make, leave nothing;    *)
(*   - after an object's release nothing of it is left.                       *)
(* It follows that memory in use is that of the objects in being, however     *)
(* long and in whatever order the library is used (NothingLost, NoGrowth).    *)
EXTENDS Naturals, FiniteSets

\* one call judged by the sets it took, gave back, opened and closed; mine: the blocks its object had
Left(mine, got, rel) == (mine \cup got) \ rel
OwnOnly(mine, got, rel) == rel \subseteq mine \cup got
Files(opened, closed) == opened = closed
\* what the object has afterwards, if the rules are kept
Kept(op, ok, mine, got, rel) ==
  CASE op = "make"   -> (ok = 0 => Left(mine, got, rel) = {})
    [] op = "use"    -> Left(mine, got, rel) = mine
    [] op = "refill" -> TRUE
    [] op = "drop"   -> Left(mine, got, rel) = {}
\* blocks of others handed over to an object (it will release them)
CONSTANTS Objs, MaxBlocks, MaxCalls, Sloppy      \* Sloppy: the rule broken, "none" in the real design
VARIABLES has,     \* blocks of each object in being
          being,   \* objects in being
          call,    \* the call under way
          n        \* calls made
vars == <<has, being, call, n>>
Idle == [op |-> "idle", o |-> 0, got |-> {}, rel |-> {}, files |-> 0, steps |-> 0]
Blocks == 1..MaxBlocks
Live == UNION {has[o] : o \in Objs} \cup (call.got \ call.rel)
Init == has = [o \in Objs |-> {}] /\ being = {} /\ call = Idle /\ n = 0
Begin(op, o) == /\ call.op = "idle" /\ n < MaxCalls /\ n' = n + 1
                /\ (op = "make") = (o \notin being)
                /\ call' = [Idle EXCEPT !.op = op, !.o = o]
                /\ UNCHANGED <<has, being>>
Take == \E b \in Blocks \ Live : /\ call.op \in {"make", "use", "refill"} /\ call.steps < 3
                                 /\ b \notin call.rel
                                 /\ call' = [call EXCEPT !.got = @ \cup {b}, !.steps = @ + 1]
                                 /\ UNCHANGED <<has, being, n>>
Give == \E b \in (call.got \cup (IF call.op \in {"refill", "drop"} THEN has[call.o] ELSE {})) \ call.rel :
           /\ call.op # "idle"
           /\ call' = [call EXCEPT !.rel = @ \cup {b}]
           /\ UNCHANGED <<has, being, n>>
Open == /\ call.op # "idle" /\ call.files = 0 /\ call.steps < 3 /\ call' = [call EXCEPT !.files = 1, !.steps = @ + 1] /\ UNCHANGED <<has, being, n>>
Close == /\ call.op # "idle" /\ call.files = 1 /\ call' = [call EXCEPT !.files = 0] /\ UNCHANGED <<has, being, n>>
\* the call returns at a moment when its rules are kept
Return(ok) ==
  LET o == call.o mine == has[o] left == Left(mine, call.got, call.rel) IN
  /\ call.op # "idle"
  /\ call.files = 0 \/ (Sloppy = "file" /\ ok = 0)
  /\ Kept(call.op, ok, mine, call.got, call.rel) \/ (Sloppy = "fail" /\ ok = 0) \/ (Sloppy = "shell" /\ call.op = "drop")
  /\ has' = [has EXCEPT ![o] = IF call.op = "drop" \/ (call.op = "make" /\ ok = 0) THEN {} ELSE IF call.op = "use" THEN mine ELSE left]
  /\ being' = IF call.op = "make" /\ ok = 1 THEN being \cup {o} ELSE IF call.op = "drop" THEN being \ {o} ELSE being
  /\ call' = [Idle EXCEPT !.rel = left \ has'[o], !.files = call.files]     \* what was lost, kept here to be seen
  /\ UNCHANGED n
Next == Take \/ Give \/ Open \/ Close \/ (\E op \in {"make", "use", "refill", "drop"}, o \in Objs : Begin(op, o)) \/ (\E ok \in {0, 1} : Return(ok))
Spec == Init /\ [][Next]_vars
NothingLost == call.op = "idle" => call.rel = {}
FilesClosed == call.op = "idle" => call.files = 0
OneOwner == \A a, b \in Objs : a # b => has[a] \cap has[b] = {}
NoneWithout == \A o \in Objs : o \notin being => has[o] = {}
=============================================================================
