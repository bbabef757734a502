------------------------------ MODULE TraceLib ------------------------------
(* Shared pieces of every trace specification.                              *)
(*                                                                          *)
(* "trace.ndjson" holds one JSON record per line: a case executed by the    *)
(* real code, with its inputs and everything observed.  A trace spec either *)
(* explains a record or reports it with Reject.  Accepted holds iff every   *)
(* line was consumed and none was rejected (register 1 counts rejections,   *)
(* register 2 the lines consumed; TLC runs with one worker).                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")

InitRegs == TLCSet(1, 0) /\ TLCSet(2, 0)
Consumed(n) == TLCSet(2, n)
Reject(n, why) == /\ TLCSet(1, TLCGet(1) + 1)
                  /\ PrintT("REJECT " \o ToString(n) \o " " \o ToString(why))

\* one stateless record judged by the set of clauses it fails (IF, not \/: TLC explores every disjunct)
Judge(n, f) == IF f = {} THEN TRUE ELSE Reject(n, f)

Accepted == /\ PrintT("TRACE-DONE " \o ToString(TLCGet(2)))
            /\ TLCGet(2) = Len(Trace)
            /\ TLCGet(1) = 0

\* Small helpers used by many specs
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}
\* the names of the clauses (a set of <<name, holds>> pairs) that do not hold
Failing(clauses) == {c[1] : c \in {d \in clauses : ~d[2]}}
=============================================================================
