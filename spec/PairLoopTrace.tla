--------------------------- MODULE PairLoopTrace ---------------------------
(* Events carry one entry per rank. lists: name -> rank -> cell -> waves.     *)
EXTENDS PairLoop, TraceIO
VARIABLES st, lists, blocks, l
vars == <<st, lists, blocks, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Ranks == DOMAIN st.A
Empty(r) == [c \in DOMAIN st.A[r] |-> <<>>]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TInit == l = 1 /\ st = <<>> /\ lists = <<>> /\ blocks = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<st, lists, blocks>>
\* a new world, or new values: st.A and st.B (rank, cell, layer) = <<id, value>>
TSet == /\ Is("set") /\ Step
        /\ st' = [A |-> E.A, B |-> E.B, same |-> E.same]
        /\ IF E.fresh THEN lists' = <<>> /\ blocks' = <<>>
           ELSE UNCHANGED <<lists, blocks>>
TNew == /\ Is("new") /\ Step /\ UNCHANGED <<st, blocks>>
        /\ lists' = With(lists, E.k, [r \in Ranks |-> Empty(r)])
TPush == /\ Is("push") /\ Step /\ UNCHANGED <<st, blocks>>
         /\ lists' = With(lists, E.k, [r \in Ranks |-> [c \in DOMAIN st.A[r] |->
              LET q == SelectSeq(E.q[r], LAMBDA x : x[1] = c - 1)
                  n == [i \in DOMAIN q |-> <<q[i][2], q[i][3]>>]
                  w == Pairs(lists[E.k][r][c]) \o n
              IN IF w = <<>> THEN <<>> ELSE <<w>>]])
THost == /\ Is("host") /\ Step /\ UNCHANGED <<st, blocks>>
         /\ \A r \in Ranks : \A c \in DOMAIN st.A[r] :
              LET q == SelectSeq(E.q[r], LAMBDA x : x[1] = c - 1)
              IN Must(l, "waves without conflicts",
                      Planned([i \in DOMAIN q |-> <<q[i][2], q[i][3]>>], E.got[r][c]))
         /\ lists' = With(lists, E.k, E.got)
\* reading a list back
TGet == /\ Is("get") /\ Step /\ UNCHANGED <<st, lists, blocks>>
        /\ \A r \in Ranks : Must(l, "host copy of the list",
             E.got[r] = lists[E.k][r])
        /\ \A r \in Ranks : Must(l, "number of pairs of the list",
             E.count[r] = NPairs(lists[E.k][r]))
TBlock == /\ Is("block") /\ Step /\ UNCHANGED st
          /\ \A r \in Ranks :
               /\ Must(l, "host copy of the block list", E.got[r] = E.cells[r])
               /\ Must(l, "validation", E.valid[r] = Valid(E.cells[r], E.size))
               /\ Must(l, "wave occupancy", E.occ[r] = Occupancy(E.cells[r], E.size))
          /\ LET o == [r \in Ranks |-> Occupancy(E.cells[r], E.size)]
                 g == [k \in 1 .. (E.size + 1) |->
                         FoldLeft(LAMBDA x, y : x + y[k], 0, o)]
             IN Must(l, "wave occupancy over the ranks",
                     E.glob = [r \in Ranks |-> IF r = 1 THEN g ELSE <<>>])
          /\ blocks' = With(blocks, E.k, E.valid[1])
          /\ lists' = With(lists, E.k, [r \in Ranks |-> [c \in DOMAIN st.A[r] |->
               BlockWaves(E.cells[r][c], E.size)]])
\* one loop over some lists, for the cells cs .. ce - 1
TLoop ==
  /\ Is("loop") /\ Step /\ UNCHANGED <<lists, blocks>>
  /\ \A r \in Ranks :
       LET use == [i \in DOMAIN E.lists |-> CellRange(lists[E.lists[i]][r], E.cs[r], E.ce[r])]
           total == FoldLeft(LAMBDA x, k : x + NPairs(lists[k][r]), 0, E.lists)
           want == FlattenSeq([i \in DOMAIN use |-> Executed(use[i], st.A[r], st.B[r])])
           got == [i \in DOMAIN E.rec[r] |-> SubSeq(E.rec[r][i], 2, 4)]
       IN /\ Must(l, "each pair is executed once with its particles", SameBag(got, want))
          /\ Must(l, "the kernel runs once for each pair", E.runs[r] = Len(want))
          /\ Must(l, "pair indices",
               /\ \A i \in DOMAIN E.rec[r] : E.rec[r][i][1] \in 0 .. (total - 1)
               /\ Cardinality({E.rec[r][i][1] : i \in DOMAIN E.rec[r]}) = Len(E.rec[r]))
          /\ E.rng => Must(l, "a random number for each pair",
               Cardinality({E.rec[r][i][5] : i \in DOMAIN E.rec[r]}) = Len(E.rec[r])
               /\ \A i \in DOMAIN E.rec[r] : E.rec[r][i][5] \in 0 .. (total - 1))
          /\ IF E.write
             THEN IF st.same
                  THEN Must(l, "values after the waves", E.A[r] =
                         FoldLeft(LAMBDA x, u : After(u, x), st.A[r], use))
                  ELSE LET w == [c \in DOMAIN st.A[r] |->
                                   FoldLeft(LAMBDA x, u : FoldLeft(Step1, x, Pairs(u[c])),
                                            <<st.A[r][c], st.B[r][c]>>, use)]
                       IN Must(l, "values after the waves",
                               /\ E.A[r] = [c \in DOMAIN w |-> w[c][1]]
                               /\ E.B[r] = [c \in DOMAIN w |-> w[c][2]])
             ELSE Must(l, "values of a loop that reads",
                       E.A[r] = st.A[r] /\ E.B[r] = st.B[r])
  /\ st' = [st EXCEPT !.A = E.A, !.B = E.B]
TNext == TEnd \/ TSet \/ TNew \/ TPush \/ THost \/ TGet \/ TBlock \/ TLoop
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
