-------------------------------- MODULE Loop --------------------------------
(* What one execution of a particle loop does to the particles of a rank.     *)
(* st[r][c] is the sequence (layer order) of the particles of cell c-1 of     *)
(* rank r-1. A particle is <<id, n, v, w, ix>>:                               *)
(*   n   how often kernels were applied to it                                 *)
(*   v,w values the kernels read and update                                   *)
(*   ix  what the kernel was told about the place of the particle             *)
(*                                                                            *)
(* A loop e visits the particles whose id is k modulo m in the cell ranges    *)
(* e.rs[r] (disjoint, each submitted separately).                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLE st

InSel(e, p) == p[1] % e.m = e.k
\* the range of rank r that holds cell c, as a set with at most one element
RangeOf(e, r, c) == {x \in ToSet(e.rs[r]) : x[1] <= c - 1 /\ c - 1 < x[2]}
SelCounts(e, r) == [c \in DOMAIN st[r] |-> Len(SelectSeq(st[r][c], LAMBDA p : InSel(e, p)))]
Counts(r) == [c \in DOMAIN st[r] |-> Len(st[r][c])]
\* Before(n)[c] is the number in the cells before c
Before(n) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, n)

Kernel(e, p, ix) ==
  <<p[1], p[2] + 1,
    [i \in 1 .. 3 |-> p[3][i] + e.a * i + p[4][((i - 1) % 2) + 1]],
    IF e.var = 0 THEN [i \in 1 .. 2 |-> p[4][i] + e.a + i - 1] ELSE p[4],
    ix>>

\* the members of the loop, each applied exactly once with its own place
Visited(e, new) ==
  /\ DOMAIN new = DOMAIN st
  /\ \A r \in DOMAIN st :
       LET n == Counts(r)  s == SelCounts(e, r)
           bn == Before(n)  bs == Before(s)
       IN /\ DOMAIN new[r] = DOMAIN st[r]
          /\ \A c \in DOMAIN st[r] :
               LET rg == RangeOf(e, r, c)
                   start == IF rg = {} THEN 0 ELSE (CHOOSE x \in rg : TRUE)[1]
               IN /\ Len(new[r][c]) = Len(st[r][c])
                  /\ \A l \in DOMAIN st[r][c] :
                       LET p == st[r][c][l]
                           q == new[r][c][l]
                           ll == q[5][3]
                       IN IF rg = {} \/ ~InSel(e, p)
                            THEN q = p
                            ELSE /\ q = Kernel(e, p,
                                      IF e.on = "dat"
                                        THEN [p[5] EXCEPT ![1] = c - 1, ![2] = l - 1,
                                                          ![3] = l - 1, ![8] = p[1]]
                                        ELSE <<c - 1, l - 1, ll, bn[c] + l - 1,
                                               bs[c] + ll - bs[start + 1],
                                               bs[c] + ll, s[c], p[1]>>)
                                 /\ ll \in 0 .. (s[c] - 1)
                                 /\ e.on # "sub" => ll = l - 1
                  \* the loop layers of a sub-group number its members
                  /\ rg # {} =>
                       Cardinality({new[r][c][l][5][3] : l \in
                         {i \in DOMAIN st[r][c] : InSel(e, st[r][c][i])}}) = s[c]

Members(e) ==
  UNION {UNION {{p[1] : p \in {q \in ToSet(st[r][c]) : InSel(e, q)}}
                 : c \in {x \in DOMAIN st[r] : RangeOf(e, r, x) # {}}}
          : r \in DOMAIN st}
\* the kernel ran once for each member, and for nothing else
HitsOnce(e) == ToSet(e.hits) = {<<i, 1>> : i \in Members(e)}

\* what a reduction over the cells of the loop collects
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Reduced(e) ==
  \A r \in DOMAIN st : \A c \in DOMAIN st[r] :
    LET mem == IF RangeOf(e, r, c) = {} THEN <<>>
               ELSE SelectSeq(st[r][c], LAMBDA p : InSel(e, p))
    IN e.red[r][c] = <<Len(mem), Sum([i \in DOMAIN mem |-> mem[i][4][1]])>>
=============================================================================
