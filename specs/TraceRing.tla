----------------------------- MODULE TraceRing -----------------------------
(* Trace specification: each record is one run of the real frame buffer,    *)
(* r.n positions, r.ops = sequence of [op, a, b, ret, ring]; every step     *)
(* must be the corresponding FrameRing action, and the observed window must *)
(* be the one the action produces.                                          *)
EXTENDS TraceLib
VARIABLES l, k, ring, disk, gone, ok, bad
vars == <<l, k, ring, disk, gone, ok, bad>>
Rec == Trace[l]
F(n) == INSTANCE FrameRing WITH N <- n, Frames <- 1..4, Missing <- {4}, Kinds <- 1..6

Start(n) == /\ ring = [i \in 1..n |-> <<0, FALSE>>]
            /\ disk = [f \in 1..4 |-> <<f, TRUE>>] /\ gone = [f \in 1..4 |-> IF f = 4 THEN 1..6 ELSE {}]
            /\ ok = TRUE
StartP(n) == /\ ring' = [i \in 1..n |-> <<0, FALSE>>]
             /\ disk' = [f \in 1..4 |-> <<f, TRUE>>] /\ gone' = [f \in 1..4 |-> IF f = 4 THEN 1..6 ELSE {}]
             /\ ok' = TRUE
TraceInit == InitRegs /\ l = 1 /\ k = 1 /\ bad = FALSE /\ Start(Trace[1].n)

Ev == Rec.ops[k]
ActN(n) == \/ Ev.op = "n" /\ F(n)!Next1
           \/ Ev.op = "p" /\ F(n)!Prev1
           \/ Ev.op = "r" /\ F(n)!Read(Ev.a, Ev.b = 1)
           \/ Ev.op = "w" /\ F(n)!Write(Ev.a)
           \/ Ev.op = "x" /\ F(n)!Lose(Ev.a, Ev.b)
           \/ Ev.op = "m" /\ F(n)!Mark(Ev.a)
Act == \E n \in 1..8 : n = Rec.n /\ ActN(n)
\* what was observed, as a FrameRing window; an undefined position may hold anything
Seen(i) == <<Ev.ring[i][1], Ev.ring[i][2] = 1>>
Matches == /\ \A i \in 1..Rec.n : ring'[i] = <<-1, FALSE>> \/ Seen(i) = ring'[i]
           /\ (Ev.ret = 1) = ok'
Step == /\ l <= Len(Trace) /\ k <= Len(Rec.ops) /\ ~bad
        /\ Act
        /\ bad' = ~Matches
        /\ (bad' => Reject(l, <<"operation", k, Ev, "expected", ring', ok'>>))
        /\ k' = k + 1 /\ l' = l
Advance == /\ l <= Len(Trace) /\ (bad \/ k > Len(Rec.ops))
           /\ Consumed(l)
           /\ l' = l + 1 /\ k' = 1 /\ bad' = FALSE
           /\ IF l < Len(Trace) THEN StartP(Trace[l + 1].n) ELSE UNCHANGED <<ring, disk, gone, ok>>
TraceNext == Step \/ Advance
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == Accepted
=============================================================================
