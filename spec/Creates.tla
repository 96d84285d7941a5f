------------------------------- MODULE Creates -------------------------------
(* Creation of particles on the device: product matrices, descendant products *)
(* and copies between groups.                                                 *)
(*   g    group |-> [r][c] the particles of cell c-1 of rank r-1, each a      *)
(*        record property |-> value                                           *)
(*   sch  group |-> [property |-> its zero value]                             *)
(* A creation changes no particle that is already there.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES g, sch

Occurs(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
\* q is the particles of a and of b, in any order
Merged(q, a, b) ==
  /\ Len(q) = Len(a) + Len(b)
  /\ \A x \in ToSet(a) \union ToSet(b) : Occurs(x, q) = Occurs(x, a) + Occurs(x, b)
\* a particle of group d with the values v, the others from the record src,
\* the rest zero
Make(d, v, src) ==
  [n \in DOMAIN sch[d] |->
     IF n \in DOMAIN v THEN v[n]
     ELSE IF n \in DOMAIN src THEN src[n] ELSE sch[d][n]]
None == [x \in {} |-> ""]

\* what a list of <<cell (from 1), particle>> puts into cell c
Into(ps, c) == LET s == SelectSeq(ps, LAMBDA x : x[1] = c)
               IN [i \in DOMAIN s |-> s[i][2]]
\* group d becomes new by the creation of made[r], a sequence of such pairs
Created(d, made, new) ==
  /\ DOMAIN new = DOMAIN g[d]
  /\ \A r \in DOMAIN new :
       /\ DOMAIN new[r] = DOMAIN g[d][r]
       /\ \A c \in DOMAIN new[r] : Merged(new[r][c], g[d][r][c], Into(made[r], c))

\* rows: [c, v], v the values of the matrix, def its defaults
FromMatrix(d, rows, def, hascell) ==
  [r \in DOMAIN rows |-> [i \in DOMAIN rows[r] |->
     <<IF hascell THEN rows[r][i].c + 1 ELSE 1,
       Make(d, rows[r][i].v @@ def, None)>>]]
\* children: [pc, pl, set, c, v]; those without a parent are not made
FromParents(d, s, ch, def, hascell) ==
  [r \in DOMAIN ch |->
     LET k == SelectSeq(ch[r], LAMBDA x : x.set) IN
     [i \in DOMAIN k |->
        <<(IF hascell THEN k[i].c ELSE k[i].pc) + 1,
          Make(d, k[i].v @@ def, g[s][r][k[i].pc + 1][k[i].pl + 1])>>]]
\* which[r][c]: the layers of group s that are copied
FromGroup(d, s, which) ==
  [r \in DOMAIN g[s] |->
     FoldLeft(LAMBDA acc, c : acc \o
                [i \in DOMAIN which[r][c] |->
                   <<c, Make(d, None, g[s][r][c][which[r][c][i] + 1])>>],
              <<>>, [c \in DOMAIN g[s][r] |-> c])]
=============================================================================
