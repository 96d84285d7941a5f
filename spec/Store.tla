------------------------------- MODULE Store -------------------------------
(* Where particles are stored: the abstract state of a ParticleGroup that is  *)
(* distributed over the ranks of a mesh.                                      *)
(*                                                                            *)
(* A particle is a row <<r, c, id, x, m, cid, p>>:                            *)
(*   r   rank that stores it           c    cell bucket on that rank          *)
(*   id  identity                      x    position, in lattice units        *)
(*   m   requested rank (two columns)  cid  the cell property of the particle *)
(*   p   every other property: name -> bit pattern                            *)
(*                                                                            *)
(* The actions are relations between `parts` and `parts'`. Layers are not     *)
(* part of the state: the order of particles in a cell is not promised.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  parts,   \* set of rows
  mesh,    \* [nr, nd, den, cells]: cells[r+1][c+1] is the tuple of a local cell
  zero     \* name -> bit pattern of a property that was never written

svars == <<parts, mesh, zero>>

RankOf(p) == p[1]
CellOf(p) == p[2]
Id(p)     == p[3]
Pos(p)    == p[4]
Want(p)   == p[5]
CellId(p) == p[6]
Props(p)  == p[7]

Ids(ps) == {Id(p) : p \in ps}
Ranks == 0 .. (mesh.nr - 1)
NCells(r) == Len(mesh.cells[r + 1])

\* What no move may change: identity, position and all properties.
Content(p)    == <<Id(p), Pos(p), Props(p)>>
Contents(ps)  == {Content(p) : p \in ps}
\* ... and what a purely local operation may not change either
Place(p) == <<Id(p), RankOf(p), CellOf(p)>>

\* the closed box of a local cell contains the position
InCell(r, c, x) ==
  /\ c < NCells(r)
  /\ LET t == mesh.cells[r + 1][c + 1]
     IN \A d \in 1 .. mesh.nd :
          /\ mesh.den * t[d] <= x[d]
          /\ x[d] <= mesh.den * (t[d] + 1)
OnOwner(r, x) == \E c \in 0 .. (NCells(r) - 1) : InCell(r, c, x)

-----------------------------------------------------------------------------
(* Invariants *)
UniqueIds == Cardinality(Ids(parts)) = Cardinality(parts)
Stored == \A p \in parts : RankOf(p) \in Ranks /\ CellOf(p) \in 0 .. (NCells(RankOf(p)) - 1)

-----------------------------------------------------------------------------
(* Actions. `new` is the set of rows after the operation. Each is split into  *)
(* what it says about which particles exist with which contents (..C), and    *)
(* where they are (..P).                                                      *)

\* rows `req` are created exactly as asked for, in the cell they name
AddC(req, new) == Contents(new) = Contents(parts) \cup Contents(req)
                  /\ Ids(req) \cap Ids(parts) = {}
AddP(req, new) == new = parts \cup req

RemoveC(ids, new) == Contents(new) = Contents({p \in parts : Id(p) \notin ids})
RemoveP(ids, new) == {Place(p) : p \in new}
                       = {Place(p) : p \in {q \in parts : Id(q) \notin ids}}

\* moves: contents never change
MoveC(new) == Contents(new) = Contents(parts)

\* to the rank that owns the position
HybridP(new) == \A p \in new : OnOwner(RankOf(p), Pos(p))
\* into the cell that contains the position, on the same rank
CellMoveP(new) ==
  /\ {<<Id(p), RankOf(p)>> : p \in new} = {<<Id(p), RankOf(p)>> : p \in parts}
  /\ \A p \in new : /\ InCell(RankOf(p), CellOf(p), Pos(p))
                    /\ CellId(p) = CellOf(p)
\* to the requested rank, -1 stays. dest: set of <<id, rank>>
ToRankP(dest, new) ==
  {<<Id(p), RankOf(p)>> : p \in new}
    = {d \in dest : d[2] >= 0}
      \cup LET stay == {d[1] : d \in {e \in dest : e[2] < 0}}
           IN {<<Id(p), RankOf(p)>> : p \in {q \in parts : Id(q) \in stay}}
\* into the cell named by the cell property. dest: set of <<id, cell>>
ShuffleP(dest, new) ==
  /\ {<<Id(p), CellOf(p)>> : p \in new} = dest
  /\ {<<Id(p), RankOf(p)>> : p \in new} = {<<Id(p), RankOf(p)>> : p \in parts}
  /\ \A p \in new : CellId(p) = CellOf(p)

\* local updates
StayP(new) == {Place(p) : p \in new} = {Place(p) : p \in parts}
SetPosC(upd, new) ==      \* upd: set of <<id, x>>
  LET moved == {u[1] : u \in upd}
  IN /\ {<<Id(p), Pos(p)>> : p \in new}
          = upd \cup {<<Id(p), Pos(p)>> : p \in {q \in parts : Id(q) \notin moved}}
     /\ {<<Id(p), Props(p)>> : p \in new} = {<<Id(p), Props(p)>> : p \in parts}
Without(f, n) == [k \in DOMAIN f \ {n} |-> f[k]]
SetValC(name, upd, new) ==    \* upd: set of <<id, bits>> for every particle
  /\ {<<Id(p), Props(p)[name]>> : p \in new} = upd
  /\ {<<Id(p), Pos(p), Without(Props(p), name)>> : p \in new}
       = {<<Id(p), Pos(p), Without(Props(p), name)>> : p \in parts}
AddDatC(name, new) ==
  /\ \A p \in new : name \in DOMAIN Props(p)
  /\ {<<Id(p), Pos(p), Without(Props(p), name)>> : p \in new} = Contents(parts)
DelDatC(name, new) ==
  Contents(new)
    = {<<Id(p), Pos(p), Without(Props(p), name)>> : p \in parts}

-----------------------------------------------------------------------------
(* What the counters must say about the rows: meta[r+1] is what rank r        *)
(* reports.                                                                   *)
CountsAgree(meta, ps) ==
  \A r \in Ranks :
    LET mine == {p \in ps : RankOf(p) = r}
        m == meta[r + 1]
        n == [c \in 1 .. NCells(r) |-> Cardinality({p \in mine : CellOf(p) = c - 1})]
    IN /\ m.pc = n
       /\ m.np = Cardinality(mine)
       /\ \A i \in DOMAIN m.ds : /\ m.ds[i].h = n
                                 /\ m.ds[i].d = n
                                 /\ m.ds[i].nr = n
                                 /\ m.ds[i].np = Cardinality(mine)
=============================================================================
