--------------------------- MODULE MCFrameFiles ---------------------------
(* The disk as a state machine over small frames: what is read is what was  *)
(* last written under that number, rounded to the file's precision.         *)
EXTENDS FrameFiles, FiniteSets
VARIABLES disk, mem     \* mem: ghost copy of what was last written, unrounded
Nums == {1, 2}
Pos == {1499, -1501}
Parts == UNION {[1..n -> {<<x, -x, 7000, a, b, 3, 0, -1, 1, 0>> : x \in Pos, a \in {0}, b \in {-2, 10000}}] : n \in 0..1}
Targs == {<<>>, <<<<0, 123454, 5, 1, 2, 3, 4, -1>>>>}
Init == disk = [n \in Nums |-> Nothing(1)] /\ mem = [n \in Nums |-> <<>>]
Write(n, p, t, prio) == /\ disk' = [disk EXCEPT ![n] = Stored(p, <<t>>, prio, disk[n])]
                        /\ mem' = [mem EXCEPT ![n] = <<p, t, prio>>]
CutFile(n) == IsOk(disk[n].rt) /\ disk' = [disk EXCEPT ![n].targ[1] = Cut] /\ UNCHANGED mem
Next == \E n \in Nums : CutFile(n) \/ \E p \in Parts, t \in Targs, b \in BOOLEAN : Write(n, p, t, b)
Spec == Init /\ [][Next]_<<disk, mem>>
RoundTrip == \A n \in Nums : (mem[n] # <<>> /\ Readable(disk[n], TRUE, FALSE, 1)) =>
    LET r == ReadParts(disk[n], TRUE, FALSE) IN
    /\ Len(r) = Len(mem[n][1])
    /\ \A i \in 1..Len(r) : /\ r[i][4] = mem[n][1][i][4] /\ r[i][5] = mem[n][1][i][5]
                            /\ \A k \in 1..3 : r[i][k] - mem[n][1][i][k] \in -500..500
                            /\ SubSeq(r[i], 7, 10) = SubSeq(mem[n][1][i], 7, 10)
    /\ Len(ReadTargs(disk[n])[1]) = Len(mem[n][2])
Idempotent == \A n \in Nums : (mem[n] # <<>> /\ Readable(disk[n], TRUE, mem[n][3], 1)) =>
    LET r == ReadParts(disk[n], TRUE, mem[n][3])
    IN Stored(r, ReadTargs(disk[n]), mem[n][3], disk[n]) = disk[n]
Isolation == [][\A n \in Nums : mem'[n] = mem[n] /\ disk'[n] # disk[n] => disk'[n].rt = disk[n].rt]_<<disk, mem>>
=============================================================================
