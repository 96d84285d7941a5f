----------------------------- MODULE MeshTrace -----------------------------
EXTENDS Mesh, TraceIO
VARIABLES m, owner, store, l
vars == <<m, owner, store, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ m = [nd |-> 1, dims |-> <<1>>, order |-> 0] /\ owner = <<>> /\ store = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<m, owner, store>>
TMesh == /\ Is("mesh") /\ Step /\ m' = E.m /\ owner' = <<>> /\ store' = <<>>
         /\ Must(l, "number of cells", \A r \in DOMAIN E.cells :
                     E.cells[r] = <<Prod(E.m.dims), NFine(E.m), Fine(E.m), NCells(E.m)>>)
TClaims ==
  /\ Is("claims") /\ Step /\ UNCHANGED <<m>> /\ store' = <<>>
  /\ owner' = Owners(m, E.claims)
  /\ Must(l, "owner of every cell", \A r \in DOMAIN E.owners : E.owners[r] = owner')
TAsk == /\ Is("ask") /\ Step /\ UNCHANGED <<m, owner, store>>
        /\ Must(l, "owners of queried cells", \A r \in DOMAIN E.q : \A x \in ToSet(E.q[r]) :
                     IsTuple(m, x[1]) /\ x[2] = owner[Linear(m, x[1]) + 1])
TIndex ==
  /\ Is("index") /\ Step /\ UNCHANGED <<m, owner, store>>
  /\ \A x \in ToSet(E.t) :
       /\ Must(l, "linear index of a tuple", x.lin = Linear(m, x.t))
       /\ Must(l, "tuple of a linear index", x.back = x.t)
       /\ Must(l, "Cartesian index of a tuple", x.cart = Cart(m, x.t))
       /\ Must(l, "tuple of a Cartesian index", x.uncart = x.t)
       /\ Must(l, "linear index on the device", x.dev = x.lin)
       /\ Must(l, "partial indices", x.part = <<Coarse(m, x.t), Small(m, x.t)>>)
TPos ==
  /\ Is("pos") /\ Step /\ UNCHANGED <<m, owner, store>>
  /\ \A x \in ToSet(E.p) :
       Must(l, "cell of a position", x.t = Tuple(m, PosCart(m, x.at)))
TFar == \* untruncated Cartesian index of positions inside a fine cell
  /\ Is("far") /\ Step /\ UNCHANGED <<m, owner, store>>
  /\ Must(l, "untruncated cell of a position",
          \A x \in ToSet(E.p) : x.t = [d \in 1 .. m.nd |-> x.at[d] \div 8])
TNear ==
  /\ Is("near") /\ Step /\ UNCHANGED <<m, owner, store>>
  /\ \A x \in ToSet(E.one) :
       Must(l, "neighbours of a cell",
            ToSet(x.out) = Neighbours(m, x.c, x.off, x.pbc) /\ Len(x.out) = Cardinality(ToSet(x.out)))
  /\ \A x \in ToSet(E.many) :
       Must(l, "neighbours of cells",
            /\ Len(x.out) = Cardinality(ToSet(x.out))
            /\ ToSet(x.out) = ToSet(x.cs) \cup ToSet(x.extra)
                  \cup UNION {Neighbours(m, c, x.off, x.pbc) : c \in ToSet(x.cs)})
TGive == /\ Is("give") /\ Step /\ UNCHANGED <<m, owner>>
         /\ store' = Contributed(owner, E.data)
TGather == /\ Is("gather") /\ Step /\ UNCHANGED <<m, owner, store>>
           /\ Must(l, "data of gathered cells", \A r \in DOMAIN E.got : \A x \in ToSet(E.got[r]) :
                       SameItems(x[2], store[x[1] + 1]))
TNext == TEnd \/ TMesh \/ TClaims \/ TAsk \/ TIndex \/ TPos \/ TFar \/ TNear \/ TGive \/ TGather
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
