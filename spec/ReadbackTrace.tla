--------------------------- MODULE ReadbackTrace ---------------------------
EXTENDS Readback, TraceIO
VARIABLE l
vars == <<g, sets, devs, order, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Key(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> <<>>]
TInit == l = 1 /\ g = <<>> /\ sets = Empty /\ devs = Empty /\ order = Empty
TEnd == Is("end") /\ Step /\ UNCHANGED <<g, sets, devs, order>>
THead == Is("init") /\ Step /\ g' = E.g /\ sets' = Empty /\ devs' = Empty /\ order' = Empty

\* reads of the group, each rank its own
TRead ==
  /\ Is("read") /\ Step /\ UNCHANGED <<g, sets, devs, order>>
  /\ \A r \in DOMAIN g :
       /\ \A x \in ToSet(E.vals[r]) :
            Must(l, "value read (" \o x.how \o ")", Entry(g[r], x) = x.v)
       /\ \A x \in ToSet(E.cols[r]) :
            Must(l, "cell read (" \o x.how \o ")", Column(g[r], x.c, x.n) = x.v)
\* writes of entries; the whole group is observed afterwards
TWrite ==
  /\ Is("write") /\ Step /\ UNCHANGED <<sets, devs>> /\ order' = Empty
  /\ g' = E.g
  /\ Must(l, "group after " \o E.how, E.g = [r \in DOMAIN g |-> Writes(g[r], E.ups[r])])
\* a particle set made from (cell, layer) pairs
TGet ==
  /\ Is("get") /\ Step /\ UNCHANGED <<g, devs, order>>
  /\ sets' = Key(sets, E.s, E.rows)
  /\ Must(l, "particle set of particles", \A r \in DOMAIN g : E.rows[r] = Rows(g[r], E.at[r]))
\* a sub-group: sel[r][c] the layers of its particles, known from the predicate
TSub ==
  /\ Is("sub") /\ Step /\ UNCHANGED <<g, sets, devs>>
  /\ order' = Key(order, E.s, E.rows)
  /\ Must(l, "particles of a sub-group",
          \A r \in DOMAIN g : \A c \in DOMAIN g[r] :
             SameBag(E.rows[r][c], [i \in DOMAIN E.sel[r][c] |-> g[r][c][E.sel[r][c][i] + 1]]))
  /\ Must(l, "cells and layers of a sub-group",
          \A r \in DOMAIN g : Rows(g[r], E.cl[r]) = FlattenSeq(E.rows[r]))
TSubGet ==
  /\ Is("subget") /\ Step /\ UNCHANGED <<g, devs, order>>
  /\ sets' = Key(sets, E.s, E.rows)
  /\ Must(l, "particle set of a sub-group",
          \A r \in DOMAIN g : E.rows[r] = Rows(order[E.sub][r], E.at[r]))
\* host particle sets: all of them are observed afterwards
AllSets(exp) == /\ sets' = E.sets
                /\ Must(l, "particle sets after " \o E.ev, E.sets = exp)
TNew == /\ Is("new") /\ Step /\ UNCHANGED <<g, devs, order>>
        /\ AllSets(Key(sets, E.s, [r \in DOMAIN E.n |-> Defaults(E.n[r], E.zero)]))
TSetW == /\ Is("setw") /\ Step /\ UNCHANGED <<g, devs, order>>
         /\ AllSets([sets EXCEPT ![E.s] =
                       [r \in DOMAIN sets[E.s] |-> WriteSet(sets[E.s][r], E.ups[r])]])
TOver == /\ Is("over") /\ Step /\ UNCHANGED <<g, devs, order>>
         /\ AllSets([sets EXCEPT ![E.s] =
                       [r \in DOMAIN sets[E.s] |-> Overlay(sets[E.s][r], sets[E.o][r])]])
TDrop == /\ Is("drop") /\ Step /\ UNCHANGED <<g, devs, order>>
         /\ AllSets([x \in DOMAIN sets \ {E.s} |-> sets[x]])
\* device particle sets, read back through get()
AllDevs(exp) == /\ devs' = E.devs
                /\ Must(l, "device particle sets after " \o E.ev, E.devs = exp)
TDev == /\ Is("dreset") /\ Step /\ UNCHANGED <<g, sets, order>>
        /\ AllDevs(Key(devs, E.s, [r \in DOMAIN E.n |-> Defaults(E.n[r], E.def)]))
TDSet == /\ Is("dset") /\ Step /\ UNCHANGED <<g, sets, order>>
         /\ AllDevs([devs EXCEPT ![E.s] =
                       [r \in DOMAIN devs[E.s] |-> Overlay(devs[E.s][r], sets[E.o][r])]])
TDW == /\ Is("dwrite") /\ Step /\ UNCHANGED <<g, sets, order>>
       /\ AllDevs([devs EXCEPT ![E.s] =
                     [r \in DOMAIN devs[E.s] |-> WriteSet(devs[E.s][r], E.ups[r])]])
\* a kernel copied entries of a device set into the group
TDR == /\ Is("dread") /\ Step /\ UNCHANGED <<sets, devs>> /\ order' = Empty
       /\ g' = E.g
       /\ Must(l, "device set read in a kernel",
               E.g = [r \in DOMAIN g |-> Writes(g[r],
                        [i \in DOMAIN E.cp[r] |->
                           LET x == E.cp[r][i] IN
                           [c |-> x.c, l |-> x.l, n |-> x.n, k |-> x.k,
                            v |-> devs[E.s][r][x.p + 1][x.pn][x.pk + 1]]])])
\* a device set appears in a host set
TDGet == /\ Is("dget") /\ Step /\ UNCHANGED <<g, devs, order>>
         /\ AllSets(Key(sets, E.s, devs[E.d]))
\* adding a host set to the group; absent properties are zero
TAdd ==
  /\ Is("add") /\ Step /\ UNCHANGED <<sets, devs>> /\ order' = Empty
  /\ g' = E.g
  /\ Must(l, "group after adding a set",
       \A r \in DOMAIN g : \A c \in DOMAIN g[r] :
         LET mine == SelectSeq(sets[E.s][r], LAMBDA p : p["CELL_ID"][1] = E.cells[c])
         IN SameBag(E.g[r][c], g[r][c] \o
               [i \in DOMAIN mine |-> [n \in DOMAIN E.zero |->
                  IF n \in DOMAIN mine[i] THEN mine[i][n] ELSE E.zero[n]]]))
TNext == THead \/ TEnd \/ TRead \/ TWrite \/ TGet \/ TSub \/ TSubGet \/ TNew
         \/ TSetW \/ TOver \/ TDrop \/ TDev \/ TDSet \/ TDW \/ TDR \/ TDGet \/ TAdd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
