------------------------------ MODULE CartMesh ------------------------------
(* A Cartesian mesh of fine cells distributed over the ranks.                 *)
(*   mesh = [nd, n, stencil]: dimensions, cells per dimension, halo width     *)
(*   own  = for each rank (from 1) its cells in local order, as tuples        *)
(* Faces of the domain: 0 is y = 0, 1 is x = max, 2 is y = max, 3 is x = 0,   *)
(* 4 is z = 0, 5 is z = max. A boundary face is <<face, l0, l1>>.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions
Dims(m) == 1 .. m.nd
Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
RECURSIVE Lin(_, _)
Lin(t, ext) == IF t = <<>> THEN 0 ELSE Head(t) + Head(ext) * Lin(Tail(t), Tail(ext))
Cells(m) == {t \in [Dims(m) -> 0 .. (CHOOSE k \in 0 .. 100000 :
               /\ \E d \in Dims(m) : m.n[d] = k + 1
               /\ \A d \in Dims(m) : m.n[d] <= k + 1)] : \A d \in Dims(m) : t[d] < m.n[d]}

\* every cell belongs to exactly one rank
Partition(m, own) ==
  LET all == FlattenSeq(own)
  IN /\ Len(all) = Prod(m.n) /\ ToSet(all) = Cells(m)
\* the cells of a rank are a box, indexed with the first dimension fastest
Low(b, d) == CHOOSE k \in {b[i][d] : i \in DOMAIN b} : \A i \in DOMAIN b : k <= b[i][d]
High(b, d) == CHOOSE k \in {b[i][d] : i \in DOMAIN b} : \A i \in DOMAIN b : k >= b[i][d]
Width(m, b) == [d \in Dims(m) |-> High(b, d) - Low(b, d) + 1]
Box(m, b) == LET lo == [d \in Dims(m) |-> Low(b, d)]
                 w == Width(m, b)
             IN /\ Len(b) = Prod(w)
                /\ \A i \in DOMAIN b : Lin([d \in Dims(m) |-> b[i][d] - lo[d]], w) = i - 1
Owner(own, t) == (CHOOSE r \in DOMAIN own : \E i \in DOMAIN own[r] : own[r][i] = t) - 1

\* ranks owning a cell in the (periodic) stencil region of a rank
RegionDim(m, b, d) == {x % m.n[d] : x \in (Low(b, d) - m.stencil) .. (High(b, d) + m.stencil)}
InRegion(m, b, t) == \A d \in Dims(m) : t[d] \in RegionDim(m, b, d)
Region(m, own, r) == {q \in DOMAIN own : \E i \in DOMAIN own[q] : InRegion(m, own[r], own[q][i])}

\* boundary faces
NFaces(m) == 2 * m.nd
Normal(f) == IF f \in {0, 2} THEN 2 ELSE IF f \in {1, 3} THEN 1 ELSE 3
Upper(f) == f \in {1, 2, 5}
Along(m, f) == SelectSeq([d \in 1 .. m.nd |-> d], LAMBDA d : d # Normal(f))
Extent(m, f) == [i \in DOMAIN Along(m, f) |-> m.n[Along(m, f)[i]]]
RECURSIVE Before(_, _)
Before(m, f) == IF f = 0 THEN 0 ELSE Before(m, f - 1) + Prod(Extent(m, f - 1))
NFaceCells(m) == Before(m, NFaces(m))
\* id of <<face, l0, l1>> (l1 = 0 in two dimensions), and the cell behind it
FaceId(m, t) == Before(m, t[1]) + Lin([i \in DOMAIN Extent(m, t[1]) |-> t[i + 1]], Extent(m, t[1]))
FaceCell(m, t) ==
  [d \in Dims(m) |->
     IF d = Normal(t[1]) THEN (IF Upper(t[1]) THEN m.n[d] - 1 ELSE 0)
     ELSE t[1 + CHOOSE i \in DOMAIN Along(m, t[1]) : Along(m, t[1])[i] = d]]
Face(m, id) ==
  LET f == CHOOSE k \in 0 .. (NFaces(m) - 1) : Before(m, k) <= id /\ id < Before(m, k + 1)
      q == id - Before(m, f)
      e == Extent(m, f)[1]
  IN <<f, q % e, q \div e>>
FacesOf(m, own, r, f) == {id \in Before(m, f) .. (Before(m, f + 1) - 1) :
                            FaceCell(m, Face(m, id)) \in ToSet(own[r])}

\* corners of a cell and of a face, in units of a cell
CornersOf(m, lo, hi) == {p \in [1 .. 3 -> UNION {{lo[d], hi[d]} : d \in 1 .. 3}] :
                            \A d \in 1 .. 3 : p[d] \in {lo[d], hi[d]}}
At(m, t, d) == IF d > m.nd THEN 0 ELSE t[d]
CellCorners(m, t) ==
  CornersOf(m, [d \in 1 .. 3 |-> At(m, t, d)],
               [d \in 1 .. 3 |-> IF d > m.nd THEN 0 ELSE t[d] + 1])
FaceCorners(m, ft) ==
  LET t == FaceCell(m, ft)
      side == t[Normal(ft[1])] + (IF Upper(ft[1]) THEN 1 ELSE 0)
  IN {p \in CellCorners(m, t) : p[Normal(ft[1])] = side}
\* neighbouring points of the outline share an edge
Adjacent(p, q) == Cardinality({d \in 1 .. 3 : p[d] # q[d]}) = 1
Outline(s) == \A i \in DOMAIN s : Adjacent(s[i], s[(i % Len(s)) + 1])

\* positions in eighths of a cell from the origin
Wrap(m, p) == [d \in Dims(m) |-> p[d] % (8 * m.n[d])]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
CellAt(m, p) == [d \in Dims(m) |-> Clamp(p[d] \div 8, 0, m.n[d] - 1)]
BinLocal(m, b, p) ==
  LET w == Width(m, b)
  IN Lin([d \in Dims(m) |-> Clamp(p[d] \div 8 - Low(b, d), 0, w[d] - 1)], w)
\* the rank a local move would send a particle to; -1 outside of the stencil
LocalRank(m, own, r, p) ==
  IF InRegion(m, own[r], CellAt(m, p)) THEN Owner(own, CellAt(m, p)) ELSE -1
=============================================================================
