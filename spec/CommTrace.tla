------------------------------ MODULE CommTrace -----------------------------
(* The collective helpers. Everything is listed by rank of the communicator;  *)
(* values are compared as they are.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceIO
VARIABLES n, l
vars == <<n, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
R == 1 .. n
TInit == l = 1 /\ n = 0
TEnd == Is("end") /\ Step /\ UNCHANGED n
TWorld == Is("init") /\ Step /\ n' = E.n
Elems(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Joined(_, _)
Joined(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Joined(s, i + 1)
TGather ==
  /\ Is("gather") /\ Step /\ UNCHANGED n
  /\ \A r \in R : (E.root = -1 \/ E.root = r - 1) =>
       Must(l, "what the ranks gave, in their order", E.out[r] = Joined(E.in, 1))
Union == UNION {Elems(E.in[r]) : r \in R}
TUnion ==
  /\ Is("union") /\ Step /\ UNCHANGED n
  /\ \A r \in R :
       IF E.root = -1 \/ E.root = r - 1
       THEN Must(l, "the union of what the ranks gave", Elems(E.out[r]) = Union)
       ELSE Must(l, "only the root has the union", E.out[r] = <<>>)
TBcast ==
  /\ Is("bcast") /\ Step /\ UNCHANGED n
  /\ \A r \in R : Must(l, "everybody has the set of the root",
                       Elems(E.out[r]) = Elems(E.in[E.root + 1]))
TPass ==
  /\ Is("pass") /\ Step /\ UNCHANGED n
  /\ Must(l, "what is received is what was sent",
       E.from = E.to \/ Elems(E.out[E.to + 1]) = Elems(E.in[E.from + 1]))
\* ------------------------------------------------------------------- graphs
TReverse ==
  /\ Is("reverse") /\ Step /\ UNCHANGED n
  /\ Must(l, "edges point the other way", E.newsrc = E.dst /\ E.newdst = E.src)
\* the k-th edge from a to b at the sender is the k-th one at the receiver
Nth(s, i) == Cardinality({j \in 1 .. i : s[j] = s[i]})
Partner(r, i) == \* receiver r, incoming edge i: index at the sender
  LET s == E.src[r][i] + 1
  IN CHOOSE j \in DOMAIN E.dst[s] : E.dst[s][j] = r - 1 /\ Nth(E.dst[s], j) = Nth(E.src[r], i)
TExchange ==
  /\ Is("exchange") /\ Step /\ UNCHANGED n
  /\ \A r \in R :
       /\ Must(l, "nothing else is written", E.kept[r])
       /\ Must(l, "the amount that was asked for", Len(E.got[r]) = E.count * Len(E.src[r]))
       /\ Must(l, "each neighbour's data in the place of the neighbour",
            \A i \in DOMAIN E.src[r] : \A k \in 1 .. E.count :
              E.got[r][(i - 1) * E.count + k] =
                E.sent[E.src[r][i] + 1][(Partner(r, i) - 1) * E.count + k])
TExchangeW ==
  /\ Is("exchangew") /\ Step /\ UNCHANGED n
  /\ \A r \in R :
       /\ Must(l, "nothing else is written", E.kept[r])
       /\ Must(l, "each neighbour's data in the place of the neighbour",
            \A i \in DOMAIN E.src[r] : E.got[r][i] = E.sent[E.src[r][i] + 1][Partner(r, i)])
\* those who speak to r, with what they said
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
TEdges ==
  /\ Is("edges") /\ Step /\ UNCHANGED n
  /\ \A r \in R :
       /\ Must(l, "each rank knows exactly who speaks to it",
            /\ Elems(E.from[r]) = {s - 1 : s \in {t \in R : r - 1 \in Elems(E.to[t])}}
            /\ Len(E.from[r]) = Cardinality(Elems(E.from[r])))
       /\ Must(l, "and hears what was said to it",
            \A i \in DOMAIN E.from[r] :
              LET s == E.from[r][i] + 1
              IN E.got[r][i] = E.sent[s][Pos(E.to[s], r - 1)])
       /\ Must(l, "answers come in the order of the questions",
            \A i \in DOMAIN E.to[r] :
              LET s == E.to[r][i] + 1
              IN E.answers[r][i] = E.answer[s][Pos(E.from[s], r - 1)])
\* ------------------------------------------------------------ decompositions
TDecomp ==
  /\ Is("decomp") /\ Step /\ UNCHANGED n
  /\ LET p == E.parts
     IN /\ Must(l, "parts cover everything in order",
             /\ p[1][1] = 0 /\ p[E.units][2] = E.items
             /\ \A u \in 1 .. E.units : p[u][1] <= p[u][2]
             /\ \A u \in 1 .. E.units - 1 : p[u][2] = p[u + 1][1])
        /\ Must(l, "parts are equal up to one",
             \A u, v \in 1 .. E.units : (p[u][2] - p[u][1]) - (p[v][2] - p[v][1]) <= 1)
        /\ Must(l, "the inverse gives the part",
             \A i \in DOMAIN E.inverse :
               /\ E.inverse[i] \in 0 .. E.units - 1
               /\ p[E.inverse[i] + 1][1] <= i - 1 /\ i - 1 < p[E.inverse[i] + 1][2])
RECURSIVE Product(_, _)
Product(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Product(s, i + 1)
SameBag(a, b) == \A x \in Elems(a) \cup Elems(b) :
  Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
\* dims(i): how many ranks along dimension i
TCart ==
  /\ Is("cart") /\ Step /\ UNCHANGED n
  /\ LET D == DOMAIN E.cells
         fit(d) == \A i \in D : d[i] <= E.cells[i]
     IN /\ Must(l, "all ranks are used", Product(E.dims, 1) = E.n)
        /\ Must(l, "the same factors", SameBag(E.dims, E.reordered))
        /\ Must(l, "more ranks along longer dimensions",
             \A i, j \in D : E.cells[i] > E.cells[j] => E.reordered[i] >= E.reordered[j])
        /\ Must(l, "all ranks along a longest dimension",
             /\ Product(E.single, 1) = E.n
             /\ \E i \in D : /\ E.single[i] = E.n
                             /\ \A j \in D : E.cells[j] <= E.cells[i])
        /\ Must(l, "a choice that is made has a number for each dimension",
             Len(E.lower) = Len(E.cells) /\ \A i \in D : E.lower[i] >= 1)
---------------------------------------------------------------------------
TNext == TWorld \/ TGather \/ TUnion \/ TBcast \/ TPass \/ TReverse \/ TExchange
         \/ TExchangeW \/ TEdges \/ TDecomp \/ TCart \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
