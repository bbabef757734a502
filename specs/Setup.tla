------------------------------- MODULE Setup -------------------------------
(* A tracking run is set up from four files: control, tracking, volume and    *)
(* sequence, the last of which can only be understood once the number of      *)
(* cameras is known. Each file is good, missing or cut short somewhere. The   *)
(* files may be read in any order that respects this, reading may stop as     *)
(* soon as it is known to be in vain, and what was read is given back then.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Files == {"control", "track", "volume", "sequence"}
States == {"good", "missing", "cut"}
\* what the outcome must be, whatever the order
Runs(file) == \A f \in Files : file[f] = "good"

VARIABLES file, read, held, out
vars == <<file, read, held, out>>
Init == file \in [Files -> States] /\ read = {} /\ held = {} /\ out = "busy"
Bad == {f \in read : file[f] # "good"}
Read(f) == /\ out = "busy" /\ f \notin read
           /\ f = "sequence" => "control" \in held
           /\ read' = read \cup {f}
           /\ held' = IF file[f] = "good" THEN held \cup {f} ELSE held
           /\ UNCHANGED <<file, out>>
Drop(f) == out = "busy" /\ Bad # {} /\ f \in held /\ held' = held \ {f} /\ UNCHANGED <<file, read, out>>
GiveUp == out = "busy" /\ Bad # {} /\ held = {} /\ out' = "none" /\ UNCHANGED <<file, read, held>>
Make == /\ out = "busy" /\ held = Files
        /\ out' = "run" /\ held' = held \cup {"window"} /\ UNCHANGED <<file, read>>
Free(x) == out = "run" /\ x \in held /\ held' = held \ {x} /\ out' = "freed" /\ UNCHANGED <<file, read>>
FreeMore(x) == out = "freed" /\ x \in held /\ held' = held \ {x} /\ UNCHANGED <<file, read, out>>
Next == GiveUp \/ Make \/ \E f \in Files \cup {"window"} : Free(f) \/ FreeMore(f) \/ (f \in Files /\ (Read(f) \/ Drop(f)))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == /\ out = "none" => ~Runs(file) /\ held = {}
         /\ out \in {"run", "freed"} => Runs(file)
         /\ out = "run" => held = Files \cup {"window"}
OnlyTaken == held \subseteq {f \in read : file[f] = "good"} \cup {"window"}
Ends == <>(IF Runs(file) THEN out = "freed" /\ held = {} ELSE out = "none" /\ held = {})
\* the cases to replay: one per start
Emit == (read = {} /\ out = "busy") => PrintT("GEN " \o ToJson(file))
=============================================================================
