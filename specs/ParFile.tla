------------------------------ MODULE ParFile ------------------------------
(* Reading a parameter file: a file is a sequence of tokens, of which a fault *)
(* may have removed the tail, made one unreadable, or made a word too long    *)
(* for its field.  The reader takes one token per step into the next field.   *)
(* Whatever the fault, the reader ends with the whole record or with an error *)
(* and no record at all.                                                      *)
EXTENDS ParFormats, FiniteSets, TLC, Json
CONSTANTS MaxCams
VARIABLES fmt, size, fault, at, pos, rec, phase
vars == <<fmt, size, fault, at, pos, rec, phase>>
F == Fmt(fmt, size)
Numeric(f, i) == f[i][2] # "word"
Faults(f) == {<<"none", 0>>, <<"missing", 0>>} \cup {<<"cut", k>> : k \in 0..Len(f) - 1}
             \cup {<<"garbled", j>> : j \in {i \in 1..Len(f) : Numeric(f, i)}} \cup {<<"long", j>> : j \in {i \in 1..Len(f) : ~Numeric(f, i)}}
Init == /\ \/ fmt \in DOMAIN Formats /\ size = 0
           \/ fmt \in Sized /\ size \in 1..MaxCams
        /\ \E x \in Faults(F) : fault = x[1] /\ at = x[2]
        /\ pos = 0 /\ rec = <<>> /\ phase = "closed"
Open == phase = "closed" /\ phase' = (IF fault = "missing" THEN "error" ELSE "reading") /\ UNCHANGED <<fmt, size, fault, at, pos, rec>>
\* a list without a declared length may end between two rows
RowEnd == fmt = "calblock" /\ pos % 4 = 0 /\ pos > 0
Readable(p) == CASE fault = "cut" -> p <= at [] fault \in {"garbled", "long"} -> p # at [] OTHER -> TRUE
Take == /\ phase = "reading" /\ pos < Len(F)
        /\ IF Readable(pos + 1)
           THEN pos' = pos + 1 /\ rec' = Append(rec, F[pos + 1][1]) /\ phase' = (IF pos + 1 = Len(F) THEN "done" ELSE "reading")
           ELSE IF fault = "cut" /\ RowEnd THEN phase' = "done" /\ UNCHANGED <<pos, rec>>
           ELSE phase' = "error" /\ rec' = <<>> /\ UNCHANGED pos
        /\ UNCHANGED <<fmt, size, fault, at>>
Next == Open \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* declarative counterpart, used to judge the real readers
Shortened == fmt = "calblock" /\ fault = "cut" /\ at % 4 = 0 /\ at > 0
Readable_ == fault = "none" \/ Shortened
AllOrNothing == /\ phase = "done" => Readable_ /\ rec = [i \in 1..(IF Shortened THEN at ELSE Len(F)) |-> F[i][1]]
                /\ phase = "error" => ~Readable_ /\ rec = <<>>
Ends == <>(phase \in {"done", "error"})
Emit == IF phase = "closed" THEN PrintT("GEN " \o ToJson([fmt |-> fmt, size |-> size, fault |-> fault, at |-> at, kinds |-> [i \in 1..Len(F) |-> F[i][2]]])) ELSE TRUE
=============================================================================
