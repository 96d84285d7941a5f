----------------------------- MODULE DsmcTrace -----------------------------
(* Events carry one entry per rank. made: partition -> [st, u] it was built   *)
(* from.                                                                      *)
EXTENDS Dsmc, TraceIO
VARIABLES st, world, made, l
vars == <<st, world, made, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Ranks == DOMAIN st
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
IDs(r, c, q) == [i \in DOMAIN q |-> <<st[r][c][q[i][1] + 1][1], st[r][c][q[i][2] + 1][1]>>]
SeenAs(r, got, seen) ==
  SameBag(seen, FlattenSeq([c \in DOMAIN got |-> IDs(r, c, got[c])]))
TInit == l = 1 /\ st = <<>> /\ world = <<>> /\ made = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<st, world, made>>
TWorld == /\ Is("world") /\ Step /\ st' = <<>> /\ made' = <<>>
          /\ world' = [listed |-> E.listed, ccells |-> E.ccells, local |-> E.local]
TSet == Is("set") /\ Step /\ st' = E.st /\ made' = <<>> /\ UNCHANGED world
Kinds == Sorted(SetOfSeq(world.listed))
TConstruct ==
  /\ Is("construct") /\ Step /\ UNCHANGED <<st, world>>
  /\ made' = With(made, E.p, E.u)
  /\ \A r \in Ranks :
       /\ Must(l, "each known species is listed once", E.ids[r] = Kinds)
       /\ Must(l, "a species has the same place for host and kernels",
            /\ E.lin[r] = E.hostlin[r]
            /\ \A i \in DOMAIN world.listed :
                 Kinds[E.lin[r][i] + 1] = world.listed[i])
       /\ Must(l, "number of collision cells",
               E.most[r] = MaxOf(SetOfSeq(world.ccells[r])))
       /\ \A c \in DOMAIN st[r] : \A k \in DOMAIN E.got[r][c] :
            \A s \in DOMAIN Kinds :
              LET q == E.got[r][c][k][s]
                  want == Group(st[r][c], E.u, k - 1, Kinds[s])
              IN Must(l, "exactly the particles of a collision cell and species",
                      SetOfSeq(q) = want /\ Len(q) = Cardinality(want))
       /\ Must(l, "occupancy of the fullest collision cell",
            E.occ[r] = MaxOf({Len(E.got[r][c][k][s]) : c \in DOMAIN st[r],
                              k \in 1 .. MaxOf(SetOfSeq(world.ccells[r])),
                              s \in DOMAIN Kinds}))
TMax ==
  /\ Is("max") /\ Step /\ UNCHANGED <<st, world, made>>
  /\ E.p \in DOMAIN made
  /\ \A r \in Ranks :
       Must(l, "number of pairs there are",
         E.got[r] = [c \in DOMAIN st[r] |-> [k \in 1 .. world.ccells[r][c] |->
            MostPairs(Cardinality(Group(st[r][c], made[E.p], k - 1, E.a)),
                      Cardinality(Group(st[r][c], made[E.p], k - 1, E.b)),
                      E.a = E.b, E.repl)]])
TSample ==
  /\ Is("sample") /\ Step /\ UNCHANGED <<st, world, made>>
  /\ E.p \in DOMAIN made
  /\ \A r \in Ranks :
       /\ \A c \in DOMAIN st[r] :
            Must(l, "as many pairs as asked, of the right particles, each once",
                 Sampled(E.got[r][c], E.req[r][c],
                         LAMBDA k : Group(st[r][c], made[E.p], k, E.a),
                         LAMBDA k : Group(st[r][c], made[E.p], k, E.b)))
       /\ Must(l, "number of pairs",
               E.count[r] = Len(FlattenSeq(E.got[r])) /\ E.onewave[r])
       /\ Must(l, "a loop visits the sampled pairs", SeenAs(r, E.got[r], E.seen[r]))
TNTC ==
  /\ Is("ntc") /\ Step /\ UNCHANGED <<st, world, made>>
  /\ \A r \in Ranks :
       /\ \A c \in DOMAIN st[r] :
            Must(l, "as many pairs as asked, of two particles of the sub groups",
                 SampledNTC(E.got[r][c], E.req[r][c], Members2(st[r][c], E.a),
                            Members2(st[r][c], E.b)))
       /\ Must(l, "waves without conflicts", Valid(E.got[r], world.local))
       /\ Must(l, "the list is valid", E.valid[r])
       /\ Must(l, "wave occupancy", E.occ[r] = Occupancy(E.got[r], world.local))
       /\ Must(l, "a loop visits the sampled pairs", SeenAs(r, E.got[r], E.seen[r]))
TAll == /\ Is("all") /\ Step /\ UNCHANGED <<st, world, made>>
        /\ Must(l, "every pair once, all items in step", AllToAll(E.items, E.n))
TNext == TWorld \/ TSet \/ TConstruct \/ TMax \/ TSample \/ TNTC \/ TAll \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
