---------------------------- MODULE TraceBindings ----------------------------
(* Histories run on the real bindings: after every operation, everything      *)
(* every live handle shows (obs) must be what Objects.tla says.               *)
EXTENDS TraceLib, Objects, SequencesExt
VARIABLE l
Err(e) == CASE e.op = "bad" -> e.why [] e.op = "badlayers" -> "ValueError" [] e.op = "loadbad" -> "OSError" [] OTHER -> ""
Apply(s, e) == CASE e.op = "new" -> New(s, e.h, e.pairs)
                 [] e.op = "set" -> Set(s, e.h, e.a, e.v)
                 [] e.op = "poke" -> [s EXCEPT !.heap = [s.heap EXCEPT ![s.hs[e.h]["v"][e.i]] = e.v[1]]]
                 [] e.op = "layers" -> Layers(s, e.h, e.v, e.w)
                 [] e.op = "load" -> Load(s, e.h, e.pairs)
                 [] e.op = "view" -> View(s, e.h2, e.h, e.a)
                 [] e.op = "copy" -> Copy(s, e.h2, e.h, e.a)
                 [] e.op = "media" -> Media(s, e.h2, e.h)
                 [] e.op = "item" -> Item(s, e.h2, e.h, e.i)
                 [] e.op = "sort" -> Sorted(s, e.h)
                 [] e.op = "via" -> Cloned(s, e.h2, e.h)
                 [] e.op = "readback" -> Cloned([s EXCEPT !.hs = Drop(s.hs, e.h2)], e.h2, e.h)
                 [] e.op = "drop" -> [s EXCEPT !.hs = Drop(s.hs, e.h)]
                 [] OTHER -> s
Seen(e) == {<<o.h, o.a>> : o \in Range(e.obs)}
Exist(s) == UNION {{<<h, a>> : a \in DOMAIN s.hs[h]} : h \in DOMAIN s.hs}
EvFails(s, e) == Failing({ <<"error-" \o e.op, e.err = Err(e)>>, <<"handles", Seen(e) = Exist(s)>>,
                           <<"consistent-" \o e.op, e.side = 1>> })
                 \cup {"shows-" \o e.op : o \in {o \in Range(e.obs) : <<o.h, o.a>> \in Exist(s) /\ Show(s, o.h, o.a) # o.v}}
Run(r) == FoldLeft(LAMBDA acc, e : LET t == Apply(acc.s, e) IN [s |-> t, f |-> acc.f \cup EvFails(t, e)], [s |-> Empty, f |-> {}], r.events)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Run(Trace[l]).f) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
