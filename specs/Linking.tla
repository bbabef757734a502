------------------------------- MODULE Linking -------------------------------
(* How links are made out of everyone's candidate lists, as the design says:   *)
(* forward, particles claim their best candidate one after the other and a     *)
(* better claim takes the candidate away; backward, particles without a        *)
(* predecessor take a candidate nobody follows yet, first come first served.   *)
(* Costs and candidate sets are arbitrary (chosen by TLC), over Frames frames   *)
(* of at most N particles.                                                      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Frames, Costs, TakeBack
Parts == 0..(N - 1)
VARIABLES next, prev,   \* [frame -> [particle -> index or None]]
          cost,         \* [frame -> [particle -> the value of its best candidate, or 0 when it has none]]
          want,         \* [frame -> [particle -> its best candidate or None]]
          at, h, dir, made
vars == <<next, prev, cost, want, at, h, dir, made>>
None == -1
F == 1..Frames
Empty == [f \in F |-> [p \in Parts |-> None]]
Init == /\ next = Empty /\ prev = Empty /\ at = 1 /\ h = 0 /\ dir = "f" /\ made = Empty
        /\ cost = [f \in F |-> [p \in Parts |-> 0]] /\ want = Empty
\* the next particle in turn claims some candidate at some cost (or has none)
Claim == /\ dir = "f" /\ at < Frames /\ h < N
         /\ \E c \in Parts \cup {None}, v \in Costs :
              /\ c = None => v = CHOOSE x \in Costs : TRUE
              /\ want' = [want EXCEPT ![at][h] = c] /\ cost' = [cost EXCEPT ![at][h] = v]
              /\ IF c = None THEN UNCHANGED <<next, prev>>
                 ELSE IF prev[at + 1][c] = None THEN next' = [next EXCEPT ![at][h] = c] /\ prev' = [prev EXCEPT ![at + 1][c] = h]
                 ELSE LET k == prev[at + 1][c] IN
                      IF cost[at][k] > v THEN /\ prev' = [prev EXCEPT ![at + 1][c] = h]
                                              /\ next' = IF TakeBack THEN [next EXCEPT ![at][h] = c, ![at][k] = None] ELSE [next EXCEPT ![at][h] = c]
                      ELSE UNCHANGED <<next, prev>>
         /\ h' = h + 1 /\ UNCHANGED <<at, dir, made>>
Turn == /\ dir = "f" /\ at < Frames /\ h = N /\ h' = 0
        /\ IF at + 1 < Frames THEN at' = at + 1 /\ UNCHANGED <<dir, made>> ELSE at' = Frames - 1 /\ dir' = "b" /\ made' = next
        /\ UNCHANGED <<next, prev, cost, want>>
\* backwards: frame `at`, looking for a predecessor in at - 1
Fill == /\ dir = "b" /\ at > 1 /\ h < N
        /\ \/ /\ next[at][h] # None /\ prev[at][h] = None
              /\ \E c \in Parts : /\ next[at - 1][c] = None
                                  /\ next' = [next EXCEPT ![at - 1][c] = h] /\ prev' = [prev EXCEPT ![at][h] = c]
           \/ UNCHANGED <<next, prev>>
        /\ h' = h + 1 /\ UNCHANGED <<at, dir, cost, want, made>>
Down == dir = "b" /\ at > 1 /\ h = N /\ h' = 0 /\ at' = at - 1 /\ UNCHANGED <<next, prev, cost, want, dir, made>>
Next == Claim \/ Turn \/ Fill \/ Down
Spec == Init /\ [][Next]_vars
\* ---- properties
Mutual == \A f \in 1..(Frames - 1), p, q \in Parts : (next[f][p] = q) <=> (prev[f + 1][q] = p)
OneToOne == \A f \in F, p, q \in Parts : p # q => (next[f][p] # next[f][q] \/ next[f][p] = None) /\ (prev[f][p] # prev[f][q] \/ prev[f][p] = None)
\* once everyone has claimed: whoever wanted c and did not get it was no better than the one who did
BestWins == dir = "f" /\ h = N => \A p \in Parts : want[at][p] # None /\ next[at][p] = None =>
               \E k \in Parts : next[at][k] = want[at][p] /\ cost[at][k] <= cost[at][p]
OnlyWanted == dir = "f" => \A f \in 1..(Frames - 1), p \in Parts : next[f][p] \in {None, want[f][p]}
ForwardKept == dir = "b" => \A f \in F, p \in Parts : made[f][p] # None => next[f][p] = made[f][p]
==============================================================================
