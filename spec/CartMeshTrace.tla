--------------------------- MODULE CartMeshTrace ---------------------------
EXTENDS CartMesh, TraceIO
VARIABLES mesh, own, l
vars == <<mesh, own, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Same == UNCHANGED <<mesh, own>>
TInit == l = 1 /\ mesh = <<>> /\ own = <<>>
TEnd == Is("end") /\ Step /\ Same
TMesh ==
  /\ Is("mesh") /\ Step /\ mesh' = E.mesh /\ own' = E.own
  /\ Must(l, "the cells are partitioned", Partition(E.mesh, E.own))
  /\ \A r \in DOMAIN E.own :
       /\ Must(l, "local cells are a box in lexicographic order", Box(E.mesh, E.own[r]))
       /\ Must(l, "tuple of a local cell", E.tuple[r] = E.own[r])
       /\ Must(l, "cell counts", E.count[r] = <<Len(E.own[r]), Len(E.own[r])>>)
       /\ Must(l, "neighbour ranks", ToSet(E.nbr[r]) = {q - 1 : q \in Region(E.mesh, E.own, r)}
                                     /\ Len(E.nbr[r]) = Cardinality(ToSet(E.nbr[r])))
       /\ Must(l, "a point inside the subdomain",
               LET t == [d \in Dims(E.mesh) |-> E.point[r][d] \div 8]
               IN t \in ToSet(E.own[r]))
TOwners == /\ Is("owners") /\ Step /\ Same
           /\ \A r \in DOMAIN E.q : \A x \in ToSet(E.q[r]) :
                Must(l, "owner of a cell", x[2] = Owner(own, x[1]) /\ x[3] = x[2])
TFaces ==
  /\ Is("faces") /\ Step /\ Same
  /\ \A r \in DOMAIN own :
       /\ Must(l, "number of boundary faces", E.total[r] = NFaceCells(mesh))
       /\ Must(l, "owned boundary faces",
               E.mine[r] = SetToSortSeq(UNION {FacesOf(mesh, own, r, f) : f \in 0 .. (NFaces(mesh) - 1)}, <))
       /\ Must(l, "faces with drawing data", E.drawn[r] = E.mine[r])
       /\ Must(l, "boundary faces of a side", \A f \in 0 .. (NFaces(mesh) - 1) :
               ToSet(E.side[r][f + 1]) = FacesOf(mesh, own, r, f)
               /\ Len(E.side[r][f + 1]) = Cardinality(ToSet(E.side[r][f + 1])))
       /\ Must(l, "boundary faces of some sides", \A x \in ToSet(E.some[r]) :
               ToSet(x[2]) = UNION {FacesOf(mesh, own, r, f) : f \in ToSet(x[1])}
               /\ Len(x[2]) = Cardinality(ToSet(x[2])))
       /\ Must(l, "communicator of the ranks with faces",
               E.comm[r] = IF E.mine[r] = <<>> THEN -1
                           ELSE Cardinality({q \in DOMAIN own : E.mine[q] # <<>>}))
       /\ \A x \in ToSet(E.q[r]) :
            /\ Must(l, "tuple of a face", x.t = Face(mesh, x.id))
            /\ Must(l, "id of a face", x.back = x.id /\ FaceId(mesh, x.t) = x.id)
            /\ Must(l, "cell of a face", x.cell = FaceCell(mesh, x.t))
            /\ Must(l, "owner of a face", x.owner = Owner(own, x.cell))
            /\ Must(l, "corners of a face", ToSet(x.pts) = FaceCorners(mesh, x.t)
                       /\ Len(x.pts) = Cardinality(ToSet(x.pts)) /\ Outline(x.pts))
TVtk ==
  /\ Is("vtk") /\ Step /\ Same
  /\ \A r \in DOMAIN own : \A i \in DOMAIN own[r] :
       LET p == E.pts[r][i]
       IN Must(l, "corners of a cell",
            /\ ToSet(p) = CellCorners(mesh, own[r][i]) /\ Len(p) = Cardinality(ToSet(p))
            /\ Outline(SubSeq(p, 1, 4))
            /\ Len(p) = 8 => /\ Outline(SubSeq(p, 5, 8))
                             /\ \A k \in 1 .. 4 : Adjacent(p[k], p[k + 4]))
TBin == /\ Is("bin") /\ Step /\ Same
        /\ \A r \in DOMAIN own : \A x \in ToSet(E.p[r]) :
             /\ Must(l, "cell of a position", x.c = BinLocal(mesh, own[r], x.at))
             /\ Must(l, "local rank of a position", x.r = LocalRank(mesh, own, r, x.at))
TWrap == /\ Is("wrap") /\ Step /\ Same
         /\ \A r \in DOMAIN own : \A x \in ToSet(E.p[r]) :
              Must(l, "wrapped position", x.kept /\
                   x.to = [d \in Dims(mesh) |-> IF E.mask[d] = 0 THEN x.at[d]
                                                ELSE Wrap(mesh, x.at)[d]])
TNext == TEnd \/ TMesh \/ TOwners \/ TFaces \/ TVtk \/ TBin \/ TWrap
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
