------------------------------ MODULE RngTrace ------------------------------
(* Random numbers in kernels. A generator produces 1, 2, 3, ... on each rank, *)
(* so a value tells whether it was produced and who got it before. Kinds:     *)
(* 1 a block of values per particle, 2 a common pool, 3 none, 4 one of each.  *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
VARIABLES gens, n, l
vars == <<gens, n, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
D == 6
TInit == l = 1 /\ gens = <<>> /\ n = 0
TEnd == Is("end") /\ Step /\ UNCHANGED <<gens, n>>
TWorld == Is("init") /\ Step /\ n' = E.ranks /\ gens' = <<>>
\* given: what was handed out; ok: nobody was told that there is nothing left
TMake ==
  /\ Is("make") /\ Step /\ UNCHANGED n
  /\ gens' = Append(gens, [kind |-> E.kind, ncomp |-> E.ncomp,
                           given |-> [r \in 1 .. n |-> {}],
                           ok |-> [r \in 1 .. n |-> TRUE]])
Val(row, k) == row[2 + k]
Flag(row, k) == row[2 + D + k]
\* the draws of a particle: k-th of N
Drawn(row) == 1 .. row[2]
Pool(g, k) == g.kind = 2 \/ (g.kind = 4 /\ k % 2 = 0)
TLoop ==
  /\ Is("loop") /\ Step /\ UNCHANGED n
  /\ LET g == gens[E.g]
         Draws(r) == {<<i, k>> : i \in DOMAIN E.rows[r], k \in 1 .. D}
         Real(r) == {x \in Draws(r) : x[2] \in Drawn(E.rows[r][x[1]])}
         V(r, x) == Val(E.rows[r][x[1]], x[2])
         F(r, x) == Flag(E.rows[r][x[1]], x[2])
         Good(r) == {x \in Real(r) : F(r, x) \in {1, 2}}
         Bad(r) == {x \in Real(r) : F(r, x) = 0}
         Pooled(r) == {x \in Real(r) : Pool(g, x[2])}
         New(r) == {V(r, x) : x \in Good(r)}
     IN /\ \A r \in 1 .. n :
             /\ Must(l, "only the particles of the loop draw",
                  \A x \in Draws(r) \ Real(r) : V(r, x) = -7 /\ F(r, x) = -1)
             /\ Must(l, "a draw is either valid or not",
                  \A x \in Real(r) : F(r, x) \in {0, 1, 2})
             /\ IF g.kind = 3
                THEN Must(l, "without a generator there is no sample",
                       \A x \in Real(r) : F(r, x) = 0 /\ V(r, x) = 0)
                ELSE /\ Must(l, "a sample was produced by the generator",
                          \A x \in Good(r) : V(r, x) \in 1 .. E.produced[r])
                     /\ Must(l, "no sample twice in a loop",
                          Cardinality(New(r)) = Cardinality(Good(r)))
                     /\ Must(l, "no sample twice in different loops",
                          New(r) \cap g.given[r] = {})
                     /\ Must(l, "every particle has its own block",
                          \A x \in Real(r) : ~Pool(g, x[2]) => F(r, x) \in {1, 2})
                     /\ Must(l, "the pool lasts as long as it was asked to",
                          (g.kind = 2 /\ E.want >= Cardinality(Real(r))) => Bad(r) = {})
                     /\ Must(l, "the pool has a value for each component of each particle",
                          (g.kind \in {2, 4} /\ E.want = -1 /\
                           \A i \in DOMAIN E.rows[r] :
                              Cardinality({k \in Drawn(E.rows[r][i]) : Pool(g, k)}) <= g.ncomp)
                          => Bad(r) = {})
                     /\ Must(l, "it is told when the pool did not last",
                          (Bad(r) # {} => ~E.valid[r]))
                     /\ Must(l, "nothing is told when the pool lasts",
                          (g.ok[r] /\ Bad(r) = {}) => E.valid[r])
        /\ gens' = [gens EXCEPT ![E.g] =
             [g EXCEPT !.given = [r \in 1 .. n |->
                  IF g.kind = 3 THEN {} ELSE g.given[r] \cup New(r)],
                !.ok = [r \in 1 .. n |-> g.ok[r] /\ Bad(r) = {}]]]
---------------------------------------------------------------------------
TNext == TWorld \/ TMake \/ TLoop \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
