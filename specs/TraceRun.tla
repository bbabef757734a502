------------------------------- MODULE TraceRun -------------------------------
(* Recorded histories of a tracking object against TrackRun.                    *)
(* record: first, last, ops: the operations, ev: per operation its events; on   *)
(* files also ret / cur per operation and tags: per operation and frame which   *)
(* of the reference results the files equal.                                    *)
EXTENDS TraceLib
VARIABLE l
K == INSTANCE TrackRun
\* the events as recorded, with the one window place the known finding is about blanked
Stale(r, e) == e[1] = "see" /\ e[2][2] = r.last - 1 /\ e[2][4] = r.last - 3 /\ r.last - 3 >= r.first /\ e[2][3] = r.last
\* a backward run never consults what is before the first frame
BackEnd(r, e) == e[1] = "see" /\ e[2][2] = r.first + 1
Blank(r, ev) == [i \in DOMAIN ev |-> IF Stale(r, ev[i]) THEN <<"see", [ev[i][2] EXCEPT ![4] = 0]>> ELSE ev[i]]
RECURSIVE Walk(_, _, _, _)
Walk(r, st, i, bad) ==
  IF i > Len(r.ops) THEN bad
  ELSE LET t == K!Do(r.ops[i], st, r.first, r.last, TRUE)
           stale == \E k \in DOMAIN r.ev[i] : Stale(r, r.ev[i][k]) /\ r.ops[i] # "B"
           ev == IF r.ops[i] = "B" THEN [k \in DOMAIN r.ev[i] |-> IF BackEnd(r, r.ev[i][k]) THEN <<"see", [r.ev[i][k][2] EXCEPT ![4] = 0]>> ELSE r.ev[i][k]]
                 ELSE Blank(r, r.ev[i])
       IN IF ev # t.ev THEN bad \cup {"order@" \o ToString(i)}
          ELSE Walk(r, t, i + 1, IF stale THEN bad \cup {"stale-window"} ELSE bad)
RECURSIVE WalkFiles(_, _, _)
WalkFiles(r, st, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE LET t == K!Do(r.ops[i], st, r.first, r.last, TRUE)
           bad == Failing({ <<"returned", r.ops[i] = "s" => r.ret[i] = (IF st.step < r.last THEN 1 ELSE 0)>>,
                            <<"counter", t.on => r.cur[i] = t.step>>,
                            <<"files", \A n \in r.first..r.last : t.saved[n] \in Range(r.tags[i][n - r.first + 1])>>,
                            <<"untouched", r.other[i] = 0>> })
       IN IF bad # {} THEN {w \o "@" \o ToString(i) : w \in bad} ELSE WalkFiles(r, t, i + 1)
Fails(r) == IF "tags" \in DOMAIN r THEN WalkFiles(r, K!Fresh(r.first, r.last), 1)
            ELSE Walk(r, K!Fresh(r.first, r.last), 1, {})
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
===============================================================================
