------------------------------ MODULE TraceEpi ------------------------------
EXTENDS TraceLib
VARIABLE l
E == INSTANCE EpiBand
MaxCand == 200
\* point i (1-based) of the sorted list
Pt(r, i) == IF r.gen = 0 THEN r.list[i]
            ELSE <<((i - 1) \div r.k) - r.off, (((i - 1) * r.m) % r.w) - (r.w \div 2), 4, 2, 2, 40>>
\* the indices that can matter: those whose x lies in the padded box (the list is sorted by x)
InX(r) == LET lo == E!Lesser(r.seg[1], r.seg[3]) * 8 - r.tol
              hi == E!Greater(r.seg[1], r.seg[3]) * 8 + r.tol
          IN {i \in 1..r.n : 4 * Pt(r, i)[1] >= lo /\ 4 * Pt(r, i)[1] <= hi}
Fails(r) ==
  IF ~E!OnSensor(r) /\ ~(E!Touching(r) /\ r.ret >= 0) THEN Failing({<<"off-sensor", r.ret = -1>>})
  ELSE LET xs == InX(r)
           must == {i \in xs : E!Must(r, Pt(r, i))}
           may == {i \in xs : E!May(r, Pt(r, i))}
           got == [i \in 1..Len(r.cand) |-> r.cand[i][1] + 1]
           full == Len(got) = MaxCand
       IN Failing({
            <<"count", r.ret = Len(got) /\ r.ret <= MaxCand>>,
            <<"in-order", \A i \in 1..Len(got) - 1 : got[i] < got[i + 1]>>,
            <<"acceptable", Range(got) \subseteq may>>,
            <<"complete", \A i \in must : i \in Range(got) \/ (full /\ i > got[MaxCand])>>,
            <<"distance", \A i \in 1..Len(got) : got[i] \in may => E!DistOk(r, Pt(r, got[i]), r.cand[i][2])>>,
            <<"correlation", \A i \in 1..Len(got) : got[i] \in may => E!CorrOk(r, Pt(r, got[i]), r.cand[i][3])>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
