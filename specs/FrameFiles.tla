----------------------------- MODULE FrameFiles -----------------------------
(* Frames on disk.  A stored frame is a set of files: the particle file     *)
(* (positions and per-camera target indices), the linkage file and the      *)
(* optional priority file (links), and one target file per camera.          *)
(* The disk maps frame numbers to what was last stored under them.          *)
(*                                                                          *)
(* Values are integers: positions in 1e-6 mm in memory and 1e-3 mm on disk; *)
(* target positions in 1e-5 px in memory and 1e-4 px on disk.               *)
EXTENDS Naturals, Integers, Sequences

\* a particle in memory: <<x, y, z, prev, next, prio, p0, p1, p2, p3>>
\* a target in memory:   <<pnr, x, y, n, nx, ny, sumg, tnr>>
Round(v, unit) == IF v < 0 THEN -((-v + unit \div 2) \div unit) ELSE (v + unit \div 2) \div unit

DefaultPrio == 4
Unlinked == <<-1, -2>>

\* the rows of each file of a stored frame
RtRow(i, p)   == <<i, Round(p[1], 1000), Round(p[2], 1000), Round(p[3], 1000), p[7], p[8], p[9], p[10]>>
LinkRow(p)    == <<p[4], p[5], Round(p[1], 1000), Round(p[2], 1000), Round(p[3], 1000)>>
PrioRow(p)    == LinkRow(p) \o <<p[6]>>
TargRow(t)    == <<t[1], Round(t[2], 10), Round(t[3], 10), t[4], t[5], t[6], t[7], t[8]>>

RtFile(parts)   == [i \in 1..Len(parts) |-> RtRow(i, parts[i])]
LinkFile(parts) == [i \in 1..Len(parts) |-> LinkRow(parts[i])]
PrioFile(parts) == [i \in 1..Len(parts) |-> PrioRow(parts[i])]
TargFile(targs) == [i \in 1..Len(targs) |-> TargRow(targs[i])]

\* the state of one file: <<"none">>, <<"cut">> or <<"ok", rows>>
None == <<"none">>
Cut  == <<"cut">>
Ok(rows) == <<"ok", rows>>
IsOk(f) == f[1] = "ok"

Stored(parts, targs, prio, old) ==
    [rt |-> Ok(RtFile(parts)), link |-> Ok(LinkFile(parts)),
     prio |-> IF prio THEN Ok(PrioFile(parts)) ELSE old.prio,
     targ |-> [c \in 1..Len(targs) |-> Ok(TargFile(targs[c]))]]
Nothing(cams) == [rt |-> None, link |-> None, prio |-> None, targ |-> [c \in 1..cams |-> None]]

\* reading a frame back (links: read the linkage file; prio: read the priority file) into one with room for cap
Fits(f, cap) == IsOk(f) /\ Len(f[2]) <= cap
Readable(d, links, prio, cap) == /\ Fits(d.rt, cap)
                                 /\ (links => IsOk(d.link))
                                 /\ (prio => IsOk(d.prio))
                                 /\ \A c \in DOMAIN d.targ : Fits(d.targ[c], cap)
\* names are at most MaxName long; pad: how much longer than plain the names passed are
MaxName == 255
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN 1 + Digits(-n) ELSE IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
Max(a, b) == IF a > b THEN a ELSE b
NameLen(kind, n) == CASE kind = "rt" -> 6 + Digits(n)
                      [] kind = "link" -> 7 + Digits(n)
                      [] kind = "prio" -> 6 + Digits(n)
                      [] kind = "targ" -> 3 + 8 + (IF n > 0 THEN Max(4, Digits(n)) ELSE 0)
Named(pad, n, kinds) == \A k \in kinds : pad + NameLen(k, n) <= MaxName
KindsOf(links, prio) == {"rt", "targ"} \cup (IF links THEN {"link"} ELSE {}) \cup (IF prio THEN {"prio"} ELSE {})
ReadPart(d, i, links, prio) ==
    LET r == d.rt[2][i]
        ln == IF links THEN d.link[2][i] ELSE Unlinked
        pr == IF prio THEN d.prio[2][i][6] ELSE DefaultPrio
    IN <<1000 * r[2], 1000 * r[3], 1000 * r[4], ln[1], ln[2], pr, r[5], r[6], r[7], r[8]>>
ReadParts(d, links, prio) == [i \in 1..Len(d.rt[2]) |-> ReadPart(d, i, links, prio)]
ReadTarg(row) == <<row[1], 10 * row[2], 10 * row[3], row[4], row[5], row[6], row[7], row[8]>>
ReadTargs(d) == [c \in DOMAIN d.targ |-> [i \in 1..Len(d.targ[c][2]) |-> ReadTarg(d.targ[c][2][i])]]
=============================================================================
