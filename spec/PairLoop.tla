------------------------------ MODULE PairLoop ------------------------------
(* Lists of pairs of particles and the loops over them.                       *)
(* A list gives, for each rank and cell, a sequence of waves, each a sequence *)
(* of pairs <<i, j>> of layers. A particle is a row <<id, value>> of a cell.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions
Mod == 9973
NewA(a, b) == (3 * a + 2 * b + 1) % Mod
NewB(a, b) == (5 * b + a + 7) % Mod

Pairs(waves) == FlattenSeq(waves)
Norm(p) == IF p[1] <= p[2] THEN p ELSE <<p[2], p[1]>>
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) : Count(s, x) = Count(t, x)
\* pairs of one wave may run at the same time: no particle appears twice
Members(w) == FlattenSeq([i \in DOMAIN w |-> <<w[i][1], w[i][2]>>])
ConflictFree(w) == Len(Members(w)) = Cardinality(ToSet(Members(w)))
Touch(p, q) == {p[1], p[2]} \cap {q[1], q[2]} # {}
WaveOf(waves, p) == CHOOSE w \in DOMAIN waves : p \in ToSet(waves[w])
\* a list built for conflicting writes from pairs given one after another
Planned(given, waves) ==
  /\ SameBag(Pairs(waves), [i \in DOMAIN given |-> Norm(given[i])])
  /\ \A w \in DOMAIN waves : waves[w] # <<>> /\ ConflictFree(waves[w])

\* cells cs .. ce - 1 of a list (a sequence over cells)
CellRange(list, cs, ce) == [c \in DOMAIN list |-> IF c - 1 >= cs /\ c - 1 < ce
                                              THEN list[c] ELSE <<>>]
NPairs(list) == FoldLeft(LAMBDA x, w : x + Len(Pairs(w)), 0, list)
\* the pairs that a loop over some lists executes, as <<cell, idA, idB>>
Executed(list, A, B) ==
  FlattenSeq([c \in DOMAIN list |->
    [k \in DOMAIN Pairs(list[c]) |->
       LET p == Pairs(list[c])[k]
       IN <<c - 1, A[c][p[1] + 1][1], B[c][p[2] + 1][1]>>]])

\* effect of a conflict free list on the values of one cell, pair by pair in
\* the order of the waves; one group (same) or two
Step1(S, p) ==
  LET i == p[1] + 1
      j == p[2] + 1
      a == S[1][i][2]
      b == S[2][j][2]
  IN <<[S[1] EXCEPT ![i][2] = NewA(a, b)], [S[2] EXCEPT ![j][2] = NewB(a, b)]>>
StepSame(S, p) ==
  LET i == p[1] + 1
      j == p[2] + 1
  IN [S EXCEPT ![i][2] = NewA(S[i][2], S[j][2]), ![j][2] = NewB(S[i][2], S[j][2])]
After(list, A) == [c \in DOMAIN A |-> FoldLeft(StepSame, A[c], Pairs(list[c]))]
After2(list, A, B) == [c \in DOMAIN A |->
                         FoldLeft(Step1, <<A[c], B[c]>>, Pairs(list[c]))]

\* blocks of pairs: <<i, j, wave>> in the order of the block form, cut into
\* blocks of a fixed size, each with waves of its own
Block(s, size, b) == SubSeq(s, (b - 1) * size + 1,
                            IF b * size < Len(s) THEN b * size ELSE Len(s))
NBlocks(s, size) == (Len(s) + size - 1) \div size
WavesOfBlock(blk) ==
  LET n == IF blk = <<>> THEN 0
           ELSE 1 + CHOOSE w \in {blk[i][3] : i \in DOMAIN blk} :
                       \A i \in DOMAIN blk : blk[i][3] <= w
  IN [w \in 1 .. n |-> LET x == SelectSeq(blk, LAMBDA p : p[3] = w - 1)
                       IN [k \in DOMAIN x |-> <<x[k][1], x[k][2]>>]]
BlockWaves(s, size) ==
  FlattenSeq([b \in 1 .. NBlocks(s, size) |-> WavesOfBlock(Block(s, size, b))])
Valid(cells, size) == \A c \in DOMAIN cells :
                        \A b \in 1 .. NBlocks(cells[c], size) :
                          LET ws == WavesOfBlock(Block(cells[c], size, b))
                          IN \A w \in DOMAIN ws : ConflictFree(ws[w])
Occupancy(cells, size) ==
  LET ws == FlattenSeq([c \in DOMAIN cells |-> BlockWaves(cells[c], size)])
  IN [k \in 1 .. (size + 1) |-> Len(SelectSeq(ws, LAMBDA w : Len(w) = k - 1))]
=============================================================================
