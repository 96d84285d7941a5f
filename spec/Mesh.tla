-------------------------------- MODULE Mesh --------------------------------
(* The mesh hierarchy: a global Cartesian grid of coarse cells, each divided  *)
(* into fine cells, whose cells are claimed with weights by the ranks and     *)
(* owned by exactly one of them; and the per-cell data kept by the owners.    *)
(*   m     = [nd, dims, order]                                                *)
(*   owner = the owner of each cell by linear index (from 1), -1 for none     *)
(*   store = the items kept for each cell, a sequence of items                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
Fine(m) == Pow(2, m.order)                    \* fine cells per coarse dimension
NFine(m) == Pow(Fine(m), m.nd)
NCells(m) == Prod(m.dims) * NFine(m)

\* tuples are <<coarse indices, fine indices>>; the first index runs fastest
RECURSIVE Lin(_, _)
Lin(t, ext) == IF t = <<>> THEN 0
               ELSE Head(t) + Head(ext) * Lin(Tail(t), Tail(ext))
Coarse(m, t) == Lin(SubSeq(t, 1, m.nd), m.dims)
Small(m, t) == Lin(SubSeq(t, m.nd + 1, 2 * m.nd), [i \in 1 .. m.nd |-> Fine(m)])
Linear(m, t) == Coarse(m, t) * NFine(m) + Small(m, t)
IsTuple(m, t) == /\ Len(t) = 2 * m.nd
                 /\ \A d \in 1 .. m.nd : t[d] \in 0 .. (m.dims[d] - 1)
                                         /\ t[m.nd + d] \in 0 .. (Fine(m) - 1)
\* global Cartesian index of a tuple, and back
Cart(m, t) == [d \in 1 .. m.nd |-> t[d] * Fine(m) + t[m.nd + d]]
Tuple(m, x) == [i \in 1 .. (2 * m.nd) |->
                  IF i <= m.nd THEN x[i] \div Fine(m) ELSE x[i - m.nd] % Fine(m)]
CartCount(m, d) == m.dims[d] * Fine(m)
RECURSIVE UnLin(_, _)
UnLin(n, ext) == IF ext = <<>> THEN <<>>
                 ELSE <<n % Head(ext)>> \o UnLin(n \div Head(ext), Tail(ext))
CartOf(m, lin) == Cart(m, UnLin(lin \div NFine(m), m.dims)
                          \o UnLin(lin % NFine(m), [i \in 1 .. m.nd |-> Fine(m)]))

\* the cell that contains a position, given in eighths of a fine cell from the
\* origin; the upper extent belongs to the last cell
PosCart(m, p) == [d \in 1 .. m.nd |->
                    IF p[d] = 8 * CartCount(m, d) THEN CartCount(m, d) - 1 ELSE p[d] \div 8]

\* cells within an offset in every dimension
Near(m, lin, off, pbc) ==
  LET x == CartOf(m, lin)
      N(d) == CartCount(m, d)
      Dim(d) == IF pbc THEN {(x[d] + o) % N(d) : o \in (-off) .. off}
                ELSE {x[d] + o : o \in (-off) .. off} \cap 0 .. (N(d) - 1)
      S == {f \in [1 .. m.nd -> UNION {Dim(d) : d \in 1 .. m.nd}] :
              \A d \in 1 .. m.nd : f[d] \in Dim(d)}
  IN {Linear(m, Tuple(m, f)) : f \in S}
Neighbours(m, lin, off, pbc) == Near(m, lin, off, pbc) \ {lin}

(* Claims: cs[r] = the claims <<cell, weight>> of rank r - 1. *)
Winner(cs, c) ==
  LET Ws(r) == {cs[r][i][2] : i \in {j \in DOMAIN cs[r] : cs[r][j][1] = c}}
      All == UNION {Ws(r) : r \in DOMAIN cs}
      Top == CHOOSE w \in All : \A v \in All : v <= w
      Rs == {r \in DOMAIN cs : Top \in Ws(r)}
  IN IF All = {} THEN -1 ELSE (CHOOSE r \in Rs : \A q \in Rs : q <= r) - 1
Owners(m, cs) == [c \in 1 .. NCells(m) |-> Winner(cs, c - 1)]

(* Data: what the ranks contribute for cells arrives at the owners. *)
Items(d, c) == FlattenSeq([i \in DOMAIN d |-> IF d[i][1] = c THEN d[i][2] ELSE <<>>])
Contributed(own, data) ==
  [c \in DOMAIN own |->
     IF own[c] < 0 THEN <<>>
     ELSE FlattenSeq([r \in DOMAIN data |-> Items(data[r], c - 1)])]
SameItems(a, b) ==
  Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) :
     Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
=============================================================================
