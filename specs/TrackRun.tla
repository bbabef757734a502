------------------------------- MODULE TrackRun -------------------------------
(* The order of a tracking run: which frame is loaded, seen and stored when,   *)
(* for one tracking object used again and again (restart, single steps,        *)
(* finish, whole forward and backward runs).                                    *)
(*                                                                              *)
(* A run is over frames First..Last; the buffer holds four frames.  What each   *)
(* operation does is written as a function on states, because the trace         *)
(* specifications replay the same functions over recorded histories.            *)
(*                                                                              *)
(* st: ring (frame in each place, 0 = empty), step, on (a stepwise run is under *)
(* way), saved (per frame, what kind of result is stored), ev (what the last    *)
(* operation did: <<"load", n>>, <<"see", window>>, <<"store", n>>).            *)
EXTENDS Integers, Sequences
Slots == 1..4
Shift(r) == <<r[2], r[3], r[4], r[1]>>
Load(st, first, last, n) == IF first <= n /\ n <= last
                            THEN [st EXCEPT !.ring[4] = n, !.ev = Append(@, <<"load", n>>)]
                            ELSE [st EXCEPT !.ring[4] = 0]
See(st) == [st EXCEPT !.ev = Append(@, <<"see", st.ring>>)]
Store(st, n, how) == [st EXCEPT !.ring = Shift(@), !.ev = Append(@, <<"store", n>>), !.saved[n] = how]

Fresh(first, last) == [ring |-> <<0, 0, 0, 0>>, step |-> first, on |-> FALSE, ev |-> <<>>, saved |-> [n \in first..last |-> "none"]]

Restart(st, first, last) ==
  LET L(s, n) == LET t == Load(s, first, last, n) IN [t EXCEPT !.ring = Shift(@)]
      s3 == L(L(L([st EXCEPT !.ev = <<>>], first), first + 1), first + 2)
  IN \* one shift too many is taken back; what precedes the first frame is nothing
     [s3 EXCEPT !.ring = <<0, s3.ring[1], s3.ring[2], s3.ring[3]>>, !.step = first, !.on = TRUE]
\* one forward step; clear: whether the place after the last frame is emptied (the real code leaves an old frame there)
Step(st, first, last, clear) ==
  LET a == Store(See(st), st.step, "fwd")
      b == IF st.step + 3 <= last THEN Load(a, first, last, st.step + 3) ELSE IF clear THEN [a EXCEPT !.ring[4] = 0] ELSE a
  IN [b EXCEPT !.step = @ + 1]
Finish(st, last) == [Store(st, st.step, IF st.step = last THEN "fwd" ELSE "end") EXCEPT !.on = FALSE]
RECURSIVE Steps(_, _, _, _)
Steps(st, first, last, clear) == IF st.step >= last THEN st ELSE Steps(Step(st, first, last, clear), first, last, clear)
\* a whole run leaves the step counter of the stepwise interface alone
Forward(st, first, last, clear) == [Finish(Steps(Restart(st, first, last), first, last, clear), last) EXCEPT !.step = st.step]
RECURSIVE BackSteps(_, _, _, _, _)
BackSteps(st, first, last, n, clear) ==
  IF n <= first THEN Store(st, first, "back")
  ELSE LET a == Store(See(st), n, "back")
       IN BackSteps(IF n - 3 >= first THEN Load(a, first, last, n - 3) ELSE IF clear THEN [a EXCEPT !.ring[4] = 0] ELSE a, first, last, n - 1, clear)
Backward(st, first, last, clear) ==
  LET L(s, n) == LET t == Load(s, first, last, n) IN [t EXCEPT !.ring = Shift(@)]
      s4 == L(L(L(L([st EXCEPT !.ev = <<>>], last), last - 1), last - 2), last - 3)
      r == <<s4.ring[4], s4.ring[1], s4.ring[2], s4.ring[3]>>
  IN [BackSteps([s4 EXCEPT !.ring = r], first, last, last - 1, clear) EXCEPT !.step = st.step, !.on = FALSE]

Do(op, st0, first, last, clear) ==
  LET st == [st0 EXCEPT !.ev = <<>>] IN
  CASE op = "r" -> Restart(st, first, last)
    [] op = "s" -> IF st.step >= last THEN st ELSE Step(st, first, last, clear)
    [] op = "f" -> Finish(st, last)
    [] op = "F" -> Forward(st, first, last, clear)
    [] op = "B" -> Backward(st, first, last, clear)
\* what the caller may ask for; onfiles: results must be on disk before they are tracked backwards, and only once
May(op, st, first, last, onfiles) ==
  CASE op \in {"r", "F"} -> TRUE
    [] op \in {"s", "f"} -> st.on
    [] op = "B" -> onfiles => \A n \in first..last : st.saved[n] = "fwd"

\* ---------------------------------------------------------------- properties of one operation's events
Kind(ev, k) == SelectSeq(ev, LAMBDA e : e[1] = k)
Loads(ev) == [i \in DOMAIN Kind(ev, "load") |-> Kind(ev, "load")[i][2]]
Stores(ev) == [i \in DOMAIN Kind(ev, "store") |-> Kind(ev, "store")[i][2]]
Sees(ev) == [i \in DOMAIN Kind(ev, "see") |-> Kind(ev, "see")[i][2]]
InSeq(n, first, last) == IF first <= n /\ n <= last THEN n ELSE 0
TrueWindow(w, dir, first, last) == \A k \in 1..4 : w[k] = InSeq(w[2] + dir * (k - 2), first, last)
\* (what lies before the first frame is never consulted by a backward run: its particles have no predecessors)
LoadsInside(ev, first, last) == \A i \in DOMAIN Loads(ev) : Loads(ev)[i] \in first..last
WholeForward(ev, first, last) == Stores(ev) = [i \in 1..(last - first + 1) |-> first + i - 1]
                              /\ Len(Sees(ev)) = last - first /\ (\A i \in DOMAIN Sees(ev) : Sees(ev)[i][2] = first + i - 1)
                              /\ Loads(ev) = [i \in 1..(last - first + 1) |-> first + i - 1]
WholeBackward(ev, first, last) == Stores(ev) = [i \in 1..(last - first) |-> last - i]
                              /\ Loads(ev) = [i \in 1..(last - first + 1) |-> last - i + 1]
==============================================================================
