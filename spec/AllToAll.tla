------------------------------ MODULE AllToAll ------------------------------
(* The pattern in which W items of a work group visit every pair of n         *)
(* particles: squares on the diagonal are split again and again, in each part *)
(* the columns rotate over the items. Checked for every n and every power of  *)
(* two W up to the bounds: a state is one (W, n).                             *)
EXTENDS Dsmc
CONSTANTS MaxN, Sizes
VARIABLES W, n
Init == W \in Sizes /\ n \in 0 .. MaxN
Next == UNCHANGED <<W, n>>
\* item i in a square of the given size at row r, column c: one pair for each step
Square(item, size, r, c) ==
  [k \in 1 .. size |-> LET row == r + k - 1
                           col == c + ((item + k - 1) % size)
                       IN IF row < n /\ col < n THEN <<<<row, col>>>> ELSE <<>>]
RECURSIVE Diagonal(_, _, _)
Diagonal(i, size, off) ==
  IF size = 0 THEN <<>>
  ELSE LET e == size + (i \div size) * 2 * size
       IN Square(i % size, size, off + e - size, off + e)
          \o Diagonal(i, size \div 2, off)
NB == (n + 2 * W - 1) \div (2 * W)
Steps(i) == FlattenSeq([b \in 1 .. NB |->
  LET off == (b - 1) * 2 * W
      rest == (NB - b) * 2
  IN Diagonal(i, W, off) \o
     FlattenSeq([k \in 1 .. 2 * rest |->
        Square(i, W, off + ((k - 1) \div rest) * W,
               off + 2 * W + ((k - 1) % rest) * W)])])
Inv == AllToAll([i \in 1 .. W |-> Steps(i - 1)], n)
=============================================================================
