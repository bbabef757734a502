------------------------------ MODULE TraceImage ------------------------------
(* Records of the image preparation operations. *)
EXTENDS TraceLib
VARIABLE l
O == INSTANCE ImageOps WITH W <- 1, Span <- 0, Greys <- {}, line <- 0, x <- 0, acc <- 0, out <- 0
Fails(r) ==
  LET P == O!Pixels(r.w, r.h)
      in(i) == O!Processed(r.w, r.h, i)
      pixels == CASE r.op = "subtract" -> r.out = O!Subtract(r.a, r.b)
                  [] r.op = "mask" -> r.out = O!Mask(r.a, r.b)
                  [] r.op = "copy" -> r.out = r.a
                  [] r.op = "mean" -> \A i \in P : in(i) => r.out[i] = O!Mean9(r.w, r.a, i)
                  [] r.op = "filter" -> IF O!FSum(r.f) = 0 THEN r.ret = 0
                                        ELSE r.ret = 1 /\ \A i \in P : in(i) => r.out[i] \in O!Filtered(r.w, r.a, r.f, i)
                  [] r.op = "blur" -> r.ret = 1 /\ r.out = O!Blur(r.w, r.h, r.s, r.a)
                  [] r.op = "split" -> O!SplitOk(r.w, r.h, r.sel, r.a, r.out)
                  [] r.op = "prepare" -> r.ret = 1 /\ O!PreparedOk(r.w, r.h, r.s, r.sel, r.filt, r.f, r.a, r.out)
                  [] r.op = "badfile" -> r.ret = 0
  IN Failing({ <<r.op, pixels>>, <<"input-intact", r.same = 1>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
