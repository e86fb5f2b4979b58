--------------------------------- MODULE Hdf --------------------------------
(* Grids that are spread over processes, written to HDF5 files and read back.       *)
(*                                                                                  *)
(* conf: np processes; grids[g] = [ty, glo, ghi, parts], parts[r] = [llo, lhi, mlo,   *)
(* mhi] for each process: the part of the global box glo..ghi it is responsible for   *)
(* and the box it has in memory (ghost cells included).                              *)
(* State: cells[g][r] the cells in memory, in row major order; files[f] the           *)
(* datasets [name, ty, dims, cells, attrs] of each file; streams: outs, ins.          *)
EXTENDS Box, TLC
Unset == -1000000                   \* a cell of a file that no process has written
NoFile == [there |-> FALSE, sets |-> <<>>]
Empty == [there |-> TRUE, sets |-> <<>>]
Stream(np) == [f |-> "", block |-> "data", count |-> 0, attrs |-> {}, active |-> 1..np]
Fresh(c) == [cells |-> [g \in 1..Len(c.grids) |-> [r \in 1..c.np |-> <<>>]],
             files |-> [f \in c.files |-> NoFile],
             outs |-> [s \in 1..c.no |-> Stream(c.np)],
             ins |-> [s \in 1..c.ni |-> Stream(c.np)]]

(* the name of the next dataset: block, block1, block2 ... after the block was named, block0, block1 ... after the file was opened *)
NextName(s) == IF s.count < 0 THEN s.block ELSE s.block \o ToString(s.count)
Counted(s) == [s EXCEPT !.count = IF @ < 0 THEN 1 ELSE @ + 1]
Named(s, b) == [s EXCEPT !.block = b, !.count = -1]

Dims(g) == [d \in 1..Len(g.glo) |-> g.ghi[d] - g.glo[d] + 1]
Size(g) == CellCount(g.glo, g.ghi)
Owner(g, p, active) == {r \in active : Inside(p, g.parts[r].llo, g.parts[r].lhi)}
InMemory(g, r, p) == COffset(p, g.parts[r].mlo, g.parts[r].mhi) + 1
\* the global array: of each process the part it is responsible for
Whole(g, cells, active) ==
  [k \in 1..Size(g) |-> LET p == CPoint(k - 1, g.glo, g.ghi)
                            w == Owner(g, p, active)
                        IN IF w = {} THEN Unset ELSE LET r == CHOOSE r \in w : TRUE IN cells[r][InMemory(g, r, p)]]
\* process r gets its part of the global array; the rest of its memory stays as it is
Received(g, r, old, whole) ==
  [i \in 1..Len(old) |-> LET p == CPoint(i - 1, g.parts[r].mlo, g.parts[r].mhi)
                         IN IF Inside(p, g.parts[r].llo, g.parts[r].lhi) THEN whole[COffset(p, g.glo, g.ghi) + 1] ELSE old[i]]

OpenOut(S, s, f) == [S EXCEPT !.outs[s].f = f, !.outs[s].count = 0, !.files[f] = Empty]   \* a file that was open in the stream is closed
Put(c, S, s, g) ==
  LET o == S.outs[s] IN
  [S EXCEPT !.files[o.f].sets = Append(@, [name |-> NextName(o), ty |-> c.grids[g].ty, dims |-> Dims(c.grids[g]),
                                           cells |-> Whole(c.grids[g], S.cells[g], o.active), attrs |-> o.attrs]),
            !.outs[s] = Counted(o)]
HasSet(file, n) == \E i \in 1..Len(file.sets) : file.sets[i].name = n
TheSet(file, n) == LET i == CHOOSE i \in 1..Len(file.sets) : file.sets[i].name = n IN file.sets[i]
Get(c, S, s, g) ==
  LET t == S.ins[s]
      d == TheSet(S.files[t.f], NextName(t))
  IN [S EXCEPT !.cells[g] = [r \in 1..c.np |-> IF r \in t.active THEN Received(c.grids[g], r, @[r], d.cells) ELSE @[r]],
               !.ins[s] = Counted(t)]

Did(c, S, e) ==
  CASE e.op = "fill" -> [S EXCEPT !.cells[e.g] = e.cells]
    [] e.op = "oopen" -> OpenOut(IF e.fresh THEN [S EXCEPT !.outs[e.s] = Stream(c.np)] ELSE S, e.s, e.f)
    [] e.op = "oclose" -> [S EXCEPT !.outs[e.s].f = ""]
    [] e.op = "oname" -> [S EXCEPT !.outs[e.s] = Named(@, e.b)]
    [] e.op = "oattr" -> [S EXCEPT !.outs[e.s].attrs = e.attrs]
    [] e.op = "oactive" -> [S EXCEPT !.outs[e.s].active = e.who]
    [] e.op = "ocopy" -> [S EXCEPT !.outs[e.t] = S.outs[e.s]]
    [] e.op = "owrite" -> Put(c, S, e.s, e.g)
    [] e.op = "iopen" -> [S EXCEPT !.ins[e.s] = [(IF e.fresh THEN Stream(c.np) ELSE @) EXCEPT !.f = IF S.files[e.f].there THEN e.f ELSE "", !.count = 0]]
    [] e.op = "icopy" -> [S EXCEPT !.ins[e.t] = S.ins[e.s]]
    [] e.op = "iclose" -> [S EXCEPT !.ins[e.s].f = ""]
    [] e.op = "iname" -> [S EXCEPT !.ins[e.s] = Named(@, e.b)]
    [] e.op = "iactive" -> [S EXCEPT !.ins[e.s].active = e.who]
    [] e.op = "iread" -> Get(c, S, e.s, e.g)
    \* a diagnostic: its n-th output (from 0), to a file of its own or appended; a reader
    [] e.op = "output" -> LET T == IF e.append /\ e.n > 0 THEN S ELSE [OpenOut(S, e.s, e.f) EXCEPT !.outs[e.s] = Named(@, "data")]
                              U == Put(c, [T EXCEPT !.outs[e.s].attrs = e.attrs], e.s, e.g)
                          IN IF e.append THEN U ELSE [U EXCEPT !.outs[e.s].f = ""]
    [] e.op = "outputs" -> [S EXCEPT !.outs[e.s].f = ""]                  \* the diagnostic ends
    [] e.op = "input" -> LET T == Get(c, [S EXCEPT !.ins[e.s] = Named([@ EXCEPT !.f = e.f], "data")], e.s, e.g) IN [T EXCEPT !.ins[e.s].f = ""]
    [] OTHER -> S
=============================================================================
