----------------------------- MODULE FrameRing -----------------------------
(* The frame buffer used by tracking, seen from outside: a window of N      *)
(* frames that can be shifted either way, filled from disk at its last      *)
(* position and flushed to disk from its first.                             *)
(*                                                                          *)
(* A frame's content is <<id, linked>>: which frame's data it is, and       *)
(* whether its path links were read/marked (TRUE) or are at their defaults. *)
(* Blank is a position never filled; Undef is a position whose last read    *)
(* failed (the content is then unspecified).                                *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS N,          \* number of frames in the window
          Frames,     \* frame numbers that may be read or written
          Missing,    \* subset of Frames with no files on disk at first
          Kinds       \* the files of a frame: 1 positions, 2 links, 3 priorities, then one of targets for each camera

VARIABLES ring, disk, gone, ok   \* ok: what the last operation returned

vars == <<ring, disk, gone, ok>>

Blank == <<0, FALSE>>
Undef == <<-1, FALSE>>
Needed(links) == IF links THEN Kinds ELSE Kinds \ {2, 3}

Content == ({0, -1} \X {FALSE}) \cup ((Frames) \X BOOLEAN)
TypeOK == /\ ring \in [1..N -> Content]
          /\ disk \in [Frames -> Content]
          /\ gone \in [Frames -> SUBSET Kinds]

Init == /\ ring = [i \in 1..N |-> Blank]
        /\ disk = [f \in Frames |-> <<f, TRUE>>]
        /\ gone = [f \in Frames |-> IF f \in Missing THEN Kinds ELSE {}]
        /\ ok = TRUE

\* Shift the window forward: the first frame becomes the last.
Next1 == /\ ring' = [i \in 1..N |-> ring[IF i = N THEN 1 ELSE i + 1]]
         /\ ok' = TRUE /\ UNCHANGED <<disk, gone>>
\* Shift backward: the last frame becomes the first.
Prev1 == /\ ring' = [i \in 1..N |-> ring[IF i = 1 THEN N ELSE i - 1]]
         /\ ok' = TRUE /\ UNCHANGED <<disk, gone>>
\* Fill the last position from the files of frame f.
Read(f, links) ==
    /\ ok' = (gone[f] \cap Needed(links) = {})
    /\ ring' = [ring EXCEPT ![N] =
          IF gone[f] \cap Needed(links) # {} THEN Undef
          ELSE <<disk[f][1], disk[f][2] /\ links>>]
    /\ UNCHANGED <<disk, gone>>
\* Flush the first position into the files of frame f.
Write(f) ==
    /\ ring[1][1] > 0     \* empty frames: see FrameFiles and known_findings.txt
    /\ disk' = [disk EXCEPT ![f] = ring[1]]
    /\ gone' = [gone EXCEPT ![f] = {}]
    /\ ok' = TRUE /\ UNCHANGED ring
\* The owner links the particles of the frame at position i.
Mark(i) ==
    /\ ring[i][1] > 0
    /\ ring' = [ring EXCEPT ![i] = <<ring[i][1], TRUE>>]
    /\ ok' = TRUE /\ UNCHANGED <<disk, gone>>
\* One of the files of frame f is taken away (by someone else).
Lose(f, k) ==
    /\ k \notin gone[f]
    /\ gone' = [gone EXCEPT ![f] = @ \cup {k}]
    /\ ok' = TRUE /\ UNCHANGED <<ring, disk>>

Next == \/ Next1 \/ Prev1
        \/ \E f \in Frames, b \in BOOLEAN : Read(f, b)
        \/ \E f \in Frames : Write(f)
        \/ \E i \in 1..N : Mark(i)
        \/ \E f \in Frames, k \in Kinds : Lose(f, k)

Spec == Init /\ [][Next]_vars

\* Properties of the design -------------------------------------------------
\* shifting loses nothing and invents nothing
Bag(r) == [c \in Content |-> {i \in 1..N : r[i] = c}]
ShiftsPermute == [][(Next1 \/ Prev1) => \E k \in 0..N-1 :
                      \A i \in 1..N : ring'[i] = ring[((i - 1 + k) % N) + 1]]_vars
\* nothing but position N is changed by a read, nothing on disk but frame f by a write
ReadLocal  == [][(\E f \in Frames, b \in BOOLEAN : Read(f, b)) =>
                   \A i \in 1..N-1 : ring'[i] = ring[i]]_vars
WriteLocal == [][\A f \in Frames : disk'[f] # disk[f] => disk'[f] = ring[1]]_vars
\* what can be loaded is what was stored, complete
Whole == [][\A f \in Frames, b \in BOOLEAN : Read(f, b) /\ ok' => ring'[N][1] = disk[f][1]]_vars
NoInvention == \A i \in 1..N : ring[i][1] \in {0, -1} \cup Frames
=============================================================================
