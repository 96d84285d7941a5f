---------------------------- MODULE SurfaceTrace ----------------------------
(* Data on boundary elements that other ranks own: the exchange of            *)
(* BoundaryMeshInterface, the functions of CartesianTrajectoryIntersection    *)
(* and UnseenValueExtractor. A rank refers to an element by the order in      *)
(* which it met it; the owner by the order in its own list.                   *)
EXTENDS Traj, TraceIO
VARIABLES world, hits, fn, acc, bmi, seen, l
vars == <<world, hits, fn, acc, bmi, seen, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ world = <<>> /\ hits = <<>> /\ fn = <<>> /\ acc = <<>>
         /\ bmi = <<>> /\ seen = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<world, hits, fn, acc, bmi, seen>>
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
SumSeq(s) == Sum(s, Len(s))
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
---------------------------------------------------------------------------
(* The exchange. bmi: owned and met, a sequence of elements for each rank     *)
NR == DOMAIN bmi.owned
Owner(g) == CHOOSE r \in NR : g \in ToSet(bmi.owned[r])
TBmi == /\ Is("bmi") /\ Step /\ UNCHANGED <<world, hits, fn, acc, seen>>
        /\ bmi' = [owned |-> E.owned, met |-> [r \in DOMAIN E.owned |-> <<>>],
                   version |-> E.version]
RECURSIVE Meet(_, _)
Meet(s, new) == IF new = <<>> THEN s
                ELSE Meet(IF Head(new) \in ToSet(s) THEN s
                          ELSE Append(s, Head(new)), Tail(new))
TExtend ==
  /\ Is("extend") /\ Step /\ UNCHANGED <<world, hits, fn, acc, seen>>
  /\ LET met == [r \in NR |-> Meet(bmi.met[r], E.new[r])]
         grown == met # bmi.met
     IN /\ bmi' = [bmi EXCEPT !.met = met, !.version = E.version]
        /\ Must(l, "elements are numbered in the order they are met", E.met = met)
        /\ Must(l, "the numbering can be inverted",
             \A r \in NR : E.inv[r] = [i \in DOMAIN met[r] |-> i - 1])
        /\ Must(l, "all elements that were met are listed",
             \A r \in NR : ToSet(E.all[r]) = ToSet(met[r]) /\ Distinct(E.all[r]))
        /\ Must(l, "a pattern that grows has a new version",
             \A r \in NR : IF grown THEN E.version[r] > bmi.version[r]
                           ELSE E.version[r] = bmi.version[r])
        /\ Must(l, "the number of elements others know",
             met = [r \in NR |-> <<>>] \/
             \A r \in NR : E.exported[r] =
               SumSeq([q \in NR |->
                  Cardinality(ToSet(met[q]) \cap ToSet(bmi.owned[r]))]))
\* every owner adds what all ranks have for its elements
TExchange ==
  /\ Is("exchange") /\ Step /\ UNCHANGED <<world, hits, fn, acc, bmi, seen>>
  /\ Must(l, "the owner gets the sum of the contributions to its elements",
       \A r \in NR : E.after[r] =
         [i \in DOMAIN bmi.owned[r] |->
            [c \in 1 .. E.ncomp |->
               E.before[r][i][c] +
               SumSeq([q \in NR |->
                 IF bmi.owned[r][i] \in ToSet(bmi.met[q])
                 THEN E.src[q][Pos(bmi.met[q], bmi.owned[r][i])][c] ELSE 0])]])
TReverse ==
  /\ Is("reverse") /\ Step /\ UNCHANGED <<world, hits, fn, acc, bmi, seen>>
  /\ Must(l, "every rank gets the owner's value of the elements it met",
       \A r \in NR : E.after[r] =
         [i \in DOMAIN bmi.met[r] |->
            LET g == bmi.met[r][i]
                o == Owner(g)
            IN E.src[o][Pos(bmi.owned[o], g)]])
---------------------------------------------------------------------------
TUnseen ==
  /\ Is("unseen") /\ Step /\ UNCHANGED <<world, hits, fn, acc, bmi>>
  /\ seen' = [r \in DOMAIN E.values |->
                (IF E.fresh THEN {} ELSE seen[r]) \cup ToSet(E.values[r])]
  /\ Must(l, "values that were not seen before",
       \A r \in DOMAIN E.values :
         ToSet(E.got[r]) = ToSet(E.values[r]) \ (IF E.fresh THEN {} ELSE seen[r]))
---------------------------------------------------------------------------
(* Functions on groups of faces. fn[f]: <<group, the elements of each rank,   *)
(* the value of each element>>. All values are multiplied by the measure of   *)
(* an element and by 16.                                                      *)
NFn == DOMAIN fn
Elems(f) == UNION {ToSet(fn[f].cells[r]) : r \in DOMAIN fn[f].cells}
\* the elements of a face are numbered after those of the faces before it
Along(f) == SelectSeq([d \in DOMAIN world.nc |-> d], LAMBDA d : d # Axis(f))
Count(f) == IF Len(Along(f)) = 1 THEN world.nc[Along(f)[1]]
            ELSE world.nc[Along(f)[1]] * world.nc[Along(f)[2]]
RECURSIVE Before(_)
Before(f) == IF f = 0 THEN 0 ELSE Before(f - 1) + Count(f - 1)
OfFace(f) == Before(f) .. Before(f) + Count(f) - 1
OfGroup(w, g) == UNION {OfFace(w.groups[g][2][k]) : k \in DOMAIN w.groups[g][2]}
Group(id) == CHOOSE g \in DOMAIN world.groups : world.groups[g][1] = id
TWorld == /\ Is("world") /\ Step /\ world' = E /\ hits' = <<>> /\ fn' = <<>>
          /\ acc' = <<>> /\ UNCHANGED <<bmi, seen>>
Values(f, dofs) == \A r \in DOMAIN dofs :
  dofs[r] = [i \in DOMAIN fn[f].cells[r] |-> fn[f].val[fn[f].cells[r][i]]]
TFn ==
  /\ Is("function") /\ Step /\ UNCHANGED <<world, hits, bmi, seen>>
  /\ LET all == FlattenSeq(E.cells)
     IN /\ Must(l, "each element of the group is owned by one rank",
             Distinct(all) /\ ToSet(all) = OfGroup(world, Group(E.group)))
        /\ Must(l, "the rank that owns an element lists it",
             \A r \in DOMAIN E.cells : E.owner[r] = [i \in DOMAIN E.cells[r] |-> r - 1])
        /\ fn' = Append(fn, [group |-> E.group, cells |-> E.cells,
                             val |-> [e \in ToSet(all) |-> 0]])
        /\ acc' = Append(acc, <<>>)
        /\ Must(l, "a new function is zero",
             \A r \in DOMAIN E.cells : E.dofs[r] = [i \in DOMAIN E.cells[r] |-> 0])
\* hits: for each round, rank and group the rows <<id, element, w1, w2, w3>>
THits == /\ Is("hits") /\ Step /\ hits' = Append(hits, E.hits)
         /\ UNCHANGED <<world, fn, acc, bmi, seen>>
Rows(h, r, g) ==
  LET q == SelectSeq(hits[h][r], LAMBDA x : x[1] = g) IN q[1][2]
\* the sum over the particles that hit element e
Contribution(h, g, w, e) ==
  SumSeq([r \in DOMAIN hits[h] |->
    LET rows == Rows(h, r, g)
    IN SumSeq([k \in DOMAIN rows |-> IF rows[k][2] = e THEN rows[k][2 + w] ELSE 0])])
Zero(f) == [e \in Elems(f) |-> 0]
Plus(f, a) == IF E.h = 0 THEN a
              ELSE [e \in Elems(f) |->
                      a[e] + 16 * Contribution(E.h, fn[f].group, E.w, e)]
Others(f) == \A k \in NFn : k # f => Values(k, E.dofs[k])
TDofs ==
  /\ Is("dofs") /\ Step /\ UNCHANGED <<world, hits, bmi, seen>>
  /\ LET f == E.f
         val == CASE E.op = "fill" -> [e \in Elems(f) |-> 16 * E.k]
                  [] E.op = "set" -> [e \in Elems(f) |-> 16 * (E.k + e)]
                  [] E.op = "project" -> Plus(f, Zero(f))
                  [] E.op = "init" -> Zero(f)
                  [] E.op = "add" -> fn[f].val
                  [] E.op = "finish" -> acc[f]
     IN /\ fn' = [fn EXCEPT ![f].val = val]
        /\ acc' = CASE E.op = "init" -> [acc EXCEPT ![f] = Zero(f)]
                    [] E.op = "add" -> [acc EXCEPT ![f] = Plus(f, acc[f])]
                    [] OTHER -> acc
        /\ Must(l, "other functions are not changed", Others(f))
        /\ Must(l, "the values of the function",
             \A r \in DOMAIN fn[f].cells :
               E.dofs[f][r] = [i \in DOMAIN fn[f].cells[r] |-> val[fn[f].cells[r][i]]])
\* the value of its element for every particle of the hits, nothing else
TEval ==
  /\ Is("eval") /\ Step /\ UNCHANGED <<world, hits, fn, acc, bmi, seen>>
  /\ \A r \in DOMAIN E.rows :
       LET mine == IF E.h = 0 THEN <<>> ELSE Rows(E.h, r, fn[E.f].group)
           ids == {mine[k][1] : k \in DOMAIN mine}
           El(id) == LET q == SelectSeq(mine, LAMBDA x : x[1] = id) IN q[1][2]
       IN /\ Must(l, "every particle of the hits is there",
               ids \subseteq {E.rows[r][k][1] : k \in DOMAIN E.rows[r]})
          /\ Must(l, "the particles get the value of their element",
               \A k \in DOMAIN E.rows[r] :
                 LET row == E.rows[r][k]
                 IN \A c \in 1 .. 2 :
                      row[1 + c] = IF row[1] \in ids /\ c = E.w
                                   THEN fn[E.f].val[El(row[1])]
                                   ELSE -16 * (row[1] + 1))
TNext == TBmi \/ TExtend \/ TExchange \/ TReverse \/ TUnseen \/ TWorld \/ TFn
         \/ THits \/ TDofs \/ TEval \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
