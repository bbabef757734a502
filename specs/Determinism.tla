------------------------------ MODULE Determinism ------------------------------
(* Two executions of one job side by side (self-composition).  A job is a       *)
(* sequence of steps over memory cells: set a cell to a constant, copy one cell *)
(* to another, keep the smaller of two cells, report a cell.  The two memories  *)
(* start with unrelated junk, the leavings of whatever ran before.              *)
(* A job is clean if it reads no cell it has not set (Clean); every clean job   *)
(* reports the same in both executions, and so does the same job run again in   *)
(* the memory it left behind (Twice).  Discipline = FALSE drops the clean-read  *)
(* rule and must be refuted.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cells, Values, Len_, Discipline
VARIABLES m1, m2, set, out1, out2, prog, round, pc
vars == <<m1, m2, set, out1, out2, prog, round, pc>>
Steps == {<<"set", c, v>> : c \in Cells, v \in Values} \cup {<<"copy", c, d>> : c \in Cells, d \in Cells}
         \cup {<<"min", c, d>> : c \in Cells, d \in Cells} \cup {<<"report", c, c>> : c \in Cells}
Reads(s) == CASE s[1] = "set" -> {} [] s[1] = "copy" -> {s[3]} [] s[1] = "min" -> {s[2], s[3]} [] OTHER -> {s[2]}
Min(a, b) == IF a <= b THEN a ELSE b
Do(m, s) == CASE s[1] = "set" -> [m EXCEPT ![s[2]] = s[3]] [] s[1] = "copy" -> [m EXCEPT ![s[2]] = m[s[3]]]
              [] s[1] = "min" -> [m EXCEPT ![s[2]] = Min(m[s[2]], m[s[3]])] [] OTHER -> m
Say(o, m, s) == IF s[1] = "report" THEN Append(o, m[s[2]]) ELSE o
Init == /\ m1 \in [Cells -> Values] /\ m2 \in [Cells -> Values] /\ set = {} /\ out1 = <<>> /\ out2 = <<>>
        /\ prog = <<>> /\ round = 1 /\ pc = 0
Run(s) == /\ m1' = Do(m1, s) /\ m2' = Do(m2, s) /\ out1' = Say(out1, m1, s) /\ out2' = Say(out2, m2, s)
          /\ set' = IF s[1] \in {"set", "copy", "min"} THEN set \cup {s[2]} ELSE set
\* the first round chooses the program as it goes
Choose_ == /\ round = 1 /\ Len(prog) < Len_
           /\ \E s \in Steps : (Discipline => Reads(s) \subseteq set) /\ prog' = Append(prog, s) /\ Run(s)
           /\ pc' = pc + 1 /\ UNCHANGED round
\* the second execution only: the same job again, in the memory the job left
Again == /\ round = 1 /\ Len(prog) = Len_ /\ round' = 2 /\ pc' = 0 /\ out2' = <<>> /\ UNCHANGED <<m1, m2, set, out1, prog>>
Replay == /\ round = 2 /\ pc < Len_ /\ pc' = pc + 1
          /\ m2' = Do(m2, prog[pc + 1]) /\ out2' = Say(out2, m2, prog[pc + 1]) /\ UNCHANGED <<m1, set, out1, prog, round>>
Next == Choose_ \/ Again \/ Replay
Spec == Init /\ [][Next]_vars
Same == round = 1 => out1 = out2
Twice == round = 2 /\ pc = Len_ => out1 = out2
================================================================================
