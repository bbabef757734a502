-------------------------------- MODULE CamOrder --------------------------------
(* Candidates gathered from the cameras and ranked by how many cameras show      *)
(* them: whatever the order of the cameras, the same candidates get the same     *)
(* ranks, so the decision (the smallest cost; cost falls with the rank, ties     *)
(* excepted) is the same.  Each camera offers up to Slots candidates.            *)
(* KeepFirst > 0 models a design that only looks at the first KeepFirst of the   *)
(* merged list in the order they were met; it must be refuted.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cams, Slots, Ids, KeepFirst
VARIABLES offer, perm
SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}
Distinct(s) == \A i \in DOMAIN s : \A j \in DOMAIN s : i # j => s[i] # s[j]
Init == /\ offer \in [1..Cams -> {s \in SeqsOf(Ids, Slots) : Distinct(s)}]
        /\ perm \in {p \in [1..Cams -> 1..Cams] : \A i \in 1..Cams : \A j \in 1..Cams : i # j => p[i] # p[j]}
Next == UNCHANGED <<offer, perm>>
Spec == Init /\ [][Next]_<<offer, perm>>
\* met in camera order, then rank by slot
Met(o) == LET Put(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
              RECURSIVE Fold(_, _, _)
              Fold(s, c, k) == IF c > Cams THEN s ELSE IF k > Len(o[c]) THEN Fold(s, c + 1, 1) ELSE Fold(Put(s, o[c][k]), c, k + 1)
          IN Fold(<<>>, 1, 1)
Freq(o, i) == Cardinality({c \in 1..Cams : \E k \in DOMAIN o[c] : o[c][k] = i})
Ranked(o) == LET m == Met(o) n == IF KeepFirst > 0 /\ Len(m) > KeepFirst THEN KeepFirst ELSE Len(m)
             IN {<<m[k], Freq(o, m[k])>> : k \in 1..n}
Turned == [c \in 1..Cams |-> offer[perm[c]]]
OrderFree == Ranked(offer) = Ranked(Turned)
=================================================================================
