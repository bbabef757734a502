--------------------------- MODULE FrameRingImpl ---------------------------
(* The same buffer the way the library lays it out: 2*N slots over N frame  *)
(* objects (the second half aliases the first) and a start position.  TLC   *)
(* checks that it implements FrameRing under the mapping                    *)
(*     ring[i] = object[alias[start + i - 1]].                              *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS N, Frames, Missing, Kinds
VARIABLES object, start, disk, gone, ok
ivars == <<object, start, disk, gone, ok>>

alias == [s \in 0..(2*N - 1) |-> s % N]
At(i) == alias[start + i - 1]
R == INSTANCE FrameRing WITH ring <- [i \in 1..N |-> object[At(i)]]

Init == /\ object = [o \in 0..N-1 |-> <<0, FALSE>>] /\ start = 0 /\ ok = TRUE
        /\ disk = [f \in Frames |-> <<f, TRUE>>] /\ gone = [f \in Frames |-> IF f \in Missing THEN Kinds ELSE {}]
INext == /\ start' = (IF start + 1 >= N THEN 0 ELSE start + 1)
         /\ ok' = TRUE /\ UNCHANGED <<object, disk, gone>>
IPrev == /\ start' = (IF start - 1 < 0 THEN N - 1 ELSE start - 1)
         /\ ok' = TRUE /\ UNCHANGED <<object, disk, gone>>
IRead(f, b) == /\ ok' = (gone[f] \cap R!Needed(b) = {})
               /\ object' = [object EXCEPT ![At(N)] =
                     IF gone[f] \cap R!Needed(b) # {} THEN <<-1, FALSE>>
                     ELSE <<disk[f][1], disk[f][2] /\ b>>]
               /\ UNCHANGED <<start, disk, gone>>
IWrite(f) == /\ object[At(1)][1] > 0
             /\ disk' = [disk EXCEPT ![f] = object[At(1)]] /\ gone' = [gone EXCEPT ![f] = {}]
             /\ ok' = TRUE /\ UNCHANGED <<object, start>>
IMark(i) == /\ object[At(i)][1] > 0
            /\ object' = [object EXCEPT ![At(i)] = <<object[At(i)][1], TRUE>>]
            /\ ok' = TRUE /\ UNCHANGED <<start, disk, gone>>
ILose(f, k) == /\ k \notin gone[f] /\ gone' = [gone EXCEPT ![f] = @ \cup {k}]
               /\ ok' = TRUE /\ UNCHANGED <<object, start, disk>>
Next == INext \/ IPrev \/ (\E f \in Frames, b \in BOOLEAN : IRead(f, b))
        \/ (\E f \in Frames : IWrite(f)) \/ (\E i \in 1..N : IMark(i))
        \/ (\E f \in Frames, k \in Kinds : ILose(f, k))
Spec == Init /\ [][Next]_ivars
Refines == R!Spec
ShiftsPermute == R!ShiftsPermute
ReadLocal == R!ReadLocal
WriteLocal == R!WriteLocal
Whole == R!Whole
NoInvention == R!NoInvention
TypeOK == R!TypeOK
=============================================================================
