------------------------------ MODULE Readback ------------------------------
(* Reading particle data back and writing it from the host.                   *)
(*   g      [r][c][l] a particle: property |-> sequence of component values   *)
(*   sets   host particle sets, name |-> [r] sequence of particles            *)
(*   devs   device particle sets, likewise                                    *)
(*   order  sub-group name |-> [r][c] the particles in loop layer order       *)
(* A value is only ever compared, so it is a string (its bits in hex).        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES g, sets, devs, order

\* entries of the group: [c, l, n, k, v], counted from 0
Entry(G, x) == G[x.c + 1][x.l + 1][x.n][x.k + 1]
Put(G, x) == [G EXCEPT ![x.c + 1][x.l + 1][x.n][x.k + 1] = x.v]
Writes(G, ups) == FoldLeft(Put, G, ups)
\* one property of a cell
Column(G, c, n) == [l \in DOMAIN G[c + 1] |-> G[c + 1][l][n]]
Rows(G, at) == [i \in DOMAIN at |-> G[at[i][1] + 1][at[i][2] + 1]]

\* entries of a particle set: [p, n, k, v]
PutSet(S, x) == [S EXCEPT ![x.p + 1][x.n][x.k + 1] = x.v]
WriteSet(S, ups) == FoldLeft(PutSet, S, ups)
\* the properties of A that B has too become those of B
Overlay(A, B) ==
  [p \in DOMAIN A |-> [n \in DOMAIN A[p] |->
      IF n \in DOMAIN B[p] THEN B[p][n] ELSE A[p][n]]]
Defaults(n, d) == [p \in 1..n |-> d]

Occurs(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b)
                 /\ \A x \in ToSet(a) \union ToSet(b) : Occurs(x, a) = Occurs(x, b)
=============================================================================
