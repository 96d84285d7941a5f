-------------------------------- MODULE Dsmc --------------------------------
(* Collision cells, collision partners and the all to all pattern.            *)
(* A cell is a sequence of rows <<id, species, collision cell, flag>>; layers *)
(* and collision cells count from 0. Flag u selects sub group u, All is the   *)
(* whole group.                                                               *)
EXTENDS PairLoop
All == 3
In(row, u) == u = All \/ row[4] = u
\* the layers of the particles of one collision cell and species
Group(cell, u, k, s) ==
  {i \in 0 .. Len(cell) - 1 : LET r == cell[i + 1]
                              IN In(r, u) /\ r[2] = s /\ r[3] = k}
Members2(cell, u) == {i \in 0 .. Len(cell) - 1 : In(cell[i + 1], u)}
SetOfSeq(q) == {q[i] : i \in DOMAIN q}
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
\* pairs that may be taken at most from a collision cell; -1: any number
MostPairs(na, nb, same, repl) ==
  IF repl THEN IF (same /\ na >= 2) \/ (~same /\ na >= 1 /\ nb >= 1) THEN -1 ELSE 0
  ELSE IF same THEN na \div 2 ELSE IF na < nb THEN na ELSE nb

\* pairs of a cell sampled without replacement. req: pairs asked of each
\* collision cell; A(k), B(k): the candidates of collision cell k
Sampled(pairs, req, A(_), B(_)) ==
  /\ \A i \in DOMAIN pairs : \E k \in 0 .. Len(req) - 1 :
       pairs[i][1] \in A(k) /\ pairs[i][2] \in B(k)
  /\ \A k \in 0 .. Len(req) - 1 :
       Len(SelectSeq(pairs, LAMBDA p : p[1] \in A(k))) = req[k + 1]
  /\ ConflictFree(pairs)
\* pairs sampled with replacement, in blocks
SampledNTC(pairs, n, A, B) ==
  /\ Len(pairs) = n
  /\ \A i \in DOMAIN pairs : /\ pairs[i][1] \in A /\ pairs[i][2] \in B
                             /\ pairs[i][1] # pairs[i][2]
                             /\ pairs[i][3] >= 0
\* no wave of a block is left out
Dense(pairs, size) ==
  \A b \in 1 .. NBlocks(pairs, size) :
    \A w \in DOMAIN WavesOfBlock(Block(pairs, size, b)) :
      WavesOfBlock(Block(pairs, size, b))[w] # <<>>

\* the pattern in which the items of a work group visit all pairs: for each item
\* the pairs it visits between synchronisations
Concat(ss) == FlattenSeq(ss)
AllToAll(items, n) ==
  /\ \A i \in DOMAIN items : Len(items[i]) = Len(items[1])
  /\ LET all == FlattenSeq([i \in DOMAIN items |-> FlattenSeq(items[i])])
     IN /\ Len(all) = (n * (n - 1)) \div 2
        /\ {Norm(all[k]) : k \in DOMAIN all}
             = {<<x, y>> \in (0 .. n - 1) \X (0 .. n - 1) : x < y}
=============================================================================
