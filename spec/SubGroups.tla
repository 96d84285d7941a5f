----------------------------- MODULE SubGroups -----------------------------
(* Sub-groups of a particle group: what each of them has to contain now.      *)
(*   st[r][c]  the particles of cell c-1 of rank r-1 in layer order, each     *)
(*             <<id, a, b, k>>                                                *)
(*   def       sub-groups: s |-> [kind, p (parents, 0 the group), a, lo, hi,  *)
(*             trunc, stat]                                                   *)
(*   frz       the members a static sub-group has to keep, s |-> [r][c] ids   *)
(*   clean     static sub-groups with no group operation since frozen         *)
(*   moved     static sub-groups with the ranks on which a particle changed   *)
(*             place since it was frozen                                      *)
(*                                                                            *)
(* A sub-group is never refreshed by an action of the specification: what it  *)
(* contains is a function of the current state, whatever happened before.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES st, def, frz, clean, moved

Ranks == DOMAIN st
Cells(r) == DOMAIN st[r]
IdsAt(r, c) == {p[1] : p \in ToSet(st[r][c])}

\* n is the number of particles of the parent in the cell
Pred(d, p, r, c, l, n) ==
  CASE d.kind = "A<" -> p[2] < d.a
    [] d.kind = "A>=" -> p[2] >= d.a
    [] d.kind = "B<" -> p[3] < d.a
    [] d.kind \in {"AB", "SV"} -> (p[2] + p[3]) % 2 = d.a % 2
    [] d.kind = "L" -> (l - 1) % 2 = d.a % 2
    [] d.kind = "N" -> n > d.a
    [] d.kind = "K=" -> p[4] = d.a
    [] d.kind = "cells" -> d.lo[r] <= c - 1 /\ c - 1 < d.hi[r]
    [] OTHER -> TRUE

\* is layer l of cell c of rank r in sub-group s, for an s that does not
\* depend on the order of another sub-group
RECURSIVE In(_, _, _, _)
In(s, r, c, l) ==
  IF s = 0 THEN TRUE
  ELSE LET d == def[s] IN
       IF d.stat THEN st[r][c][l][1] \in ToSet(frz[s][r][c])
       ELSE /\ \E i \in DOMAIN d.p : In(d.p[i], r, c, l)
            /\ Pred(d, st[r][c][l], r, c, l,
                    IF d.kind # "N" THEN 0
                    ELSE Cardinality({k \in DOMAIN st[r][c] : In(d.p[1], r, c, k)}))
\* the ids as a set
Ids(s, r, c) == {st[r][c][l][1] : l \in {k \in DOMAIN st[r][c] : In(s, r, c, k)}}

\* ------------------------------------------------------------ observations
\* ob : sub-group |-> [r][c] sequence of the ids it contains
Front0(n, q) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Rest(n, q) == SubSeq(q, n + 1, Len(q))
\* the order of a parent: that of the group itself is the layer order
Order(ob, s, r, c) ==
  IF s = 0 THEN [l \in DOMAIN st[r][c] |-> st[r][c][l][1]] ELSE ob[s][r][c]
Has(ob, s, r, c) == ToSet(Order(ob, s, r, c))

\* the content of s given what its parents contain
Correct(ob, s) ==
  LET d == def[s] IN
  /\ DOMAIN ob[s] = Ranks
  /\ \A r \in Ranks :
       /\ DOMAIN ob[s][r] = Cells(r)
       /\ \A c \in Cells(r) :
            LET q == ob[s][r][c] IN
            /\ Cardinality(ToSet(q)) = Len(q)
            /\ CASE d.stat -> q = frz[s][r][c]
                 [] ~d.stat /\ ~d.trunc -> ToSet(q) = Ids(s, r, c)
                 [] ~d.stat /\ d.trunc /\ d.kind = "trunc" ->
                      ToSet(q) = ToSet(Front0(d.a, Order(ob, d.p[1], r, c)))
                 [] ~d.stat /\ d.trunc /\ d.kind = "disc" ->
                      ToSet(q) = ToSet(Rest(d.a, Order(ob, d.p[1], r, c)))
                 [] OTHER ->
                      ToSet(q) =
                        {st[r][c][l][1] : l \in
                          {k \in DOMAIN st[r][c] :
                             /\ Pred(d, st[r][c][k], r, c, k, Len(Order(ob, d.p[1], r, c)))
                             /\ \E i \in DOMAIN d.p :
                                  st[r][c][k][1] \in Has(ob, d.p[i], r, c)}}
CountsOk(o) ==
  \A r \in Ranks :
    \* a loop numbers the particles of the sub-group 0, 1, ... on each rank
    /\ o.lin => o.li[r] = [i \in 1..o.np[r] |-> i - 1]
    /\ o.pc[r] = [c \in Cells(r) |-> Len(o.ob[r][c])]
    /\ o.np[r] = FoldLeft(LAMBDA a, b : a + b, 0, o.pc[r])

\* --------------------------------------------------------------- actions
Statics == {s \in DOMAIN def : def[s].stat}
Place(x) == [r \in DOMAIN x |-> [c \in DOMAIN x[r] |-> [l \in DOMAIN x[r][c] |-> x[r][c][l][1]]]]
\* a change of the group that is not a write to properties
GroupOp(new) ==
  /\ clean' = {}
  /\ moved' = moved \union {<<s, r>> \in Statics \X Ranks : Place(new)[r] # Place(st)[r]}
\* static sub-groups are refused once their particles may have changed place
ValidOk(s, r, v) ==
  IF ~def[s].stat THEN v
  ELSE /\ s \in clean => v
       /\ <<s, r>> \in moved => ~v
=============================================================================
