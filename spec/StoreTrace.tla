----------------------------- MODULE StoreTrace -----------------------------
(* Recorded life cycles of a ParticleGroup are behaviours of Store.           *)
EXTENDS Store, TraceIO
CONSTANT Focus  \* "conserve": contents, "place": ranks and cells, "local": all
VARIABLE l
vars == <<parts, mesh, zero, l>>

E == Trace[l]
New == ToSet(E.st)
C(name, ok) == IF Focus \in {"conserve", "local"} THEN Must(l, name, ok) ELSE TRUE
P(name, ok) == IF Focus \in {"place", "local"} THEN Must(l, name, ok) ELSE TRUE
L(name, ok) == IF Focus = "local" THEN Must(l, name, ok) ELSE TRUE

Step(new) ==
  /\ C("no two particles with one identity", Cardinality(Ids(new)) = Len(E.st))
  /\ L("counters agree with the particles", CountsAgree(E.meta, new))
  /\ parts' = new
  /\ l' = l + 1

Is(e) == l <= Len(Trace) /\ E.ev = e
Same == UNCHANGED <<mesh, zero>>

TInit == /\ parts = {} /\ l = 1 /\ zero = <<>>
         /\ mesh = [nr |-> 0, nd |-> 0, den |-> 1, cells |-> <<>>]
THead == /\ Is("init")
         /\ mesh' = [nr |-> E.nr, nd |-> E.nd, den |-> E.den, cells |-> E.cells]
         /\ zero' = E.zero /\ parts' = {} /\ l' = l + 1
TEnd == Is("end") /\ l' = l + 1 /\ UNCHANGED svars
TAdd == /\ Is("add") /\ Same
        /\ LET new == New req == ToSet(E.req)
           IN /\ C("add: contents", AddC(req, new))
              /\ P("add: place", AddP(req, new))
              /\ Step(new)
TRm == /\ Is("rm") /\ Same
       /\ LET new == New ids == ToSet(E.ids)
          IN /\ C("remove: contents", RemoveC(ids, new))
             /\ P("remove: place", RemoveP(ids, new))
             /\ Step(new)
TClear == /\ Is("clear") /\ Same
          /\ LET new == New
                 ids == {Id(p) : p \in {q \in parts : RankOf(q) = E.r}}
             IN /\ C("clear: contents", RemoveC(ids, new))
                /\ P("clear: place", RemoveP(ids, new))
                /\ Step(new)
THyb == /\ Is("hyb") /\ Same
        /\ LET new == New
           IN /\ C("hybrid move: contents", MoveC(new))
              /\ P("hybrid move: rank owns position", HybridP(new))
              /\ Step(new)
\* brought from anywhere to where they belong, in steps
TInit1 == /\ Is("parinit") /\ Same
          /\ LET new == New
             IN /\ C("initialisation: every particle once, as it was", MoveC(new))
                /\ P("initialisation: rank owns position", HybridP(new))
                /\ Must(l, "nothing is left behind", E.left = 0)
                /\ Step(new)
\* at: <<rank, lattice box of the place>> of all particles when they start
TStart == /\ Is("parstart") /\ Same /\ UNCHANGED parts /\ l' = l + 1
          /\ Must(l, "particles start where their rank owns the domain",
               \A i \in DOMAIN E.at : OnOwner(E.at[i][1], E.at[i][2]))
          /\ Must(l, "all start", {E.at[i][3] : i \in DOMAIN E.at} = Ids(parts))
TKept == /\ Is("kept") /\ Same /\ UNCHANGED parts /\ l' = l + 1
         /\ Must(l, "those who own the particles keep them", E.before = E.after)
TCell == /\ Is("cellmove") /\ Same
         /\ LET new == New
            IN /\ C("cell move: contents", MoveC(new))
               /\ P("cell move: place", CellMoveP(new))
               /\ Step(new)
TGlob == /\ Is("glob") /\ Same
         /\ LET new == New
            IN /\ C("global move: contents", MoveC(new))
               /\ P("global move: requested rank", ToRankP(ToSet(E.dest), new))
               /\ Step(new)
TLoc == /\ Is("loc") /\ Same
        /\ LET new == New
           IN /\ C("local move: contents", MoveC(new))
              /\ P("local move: requested rank", ToRankP(ToSet(E.dest), new))
              /\ Step(new)
TShuf == /\ Is("shuffle") /\ Same
         /\ LET new == New
            IN /\ C("cell move: contents", MoveC(new))
               /\ P("cell move: requested cell", ShuffleP(ToSet(E.dest), new))
               /\ Step(new)
TPos == /\ Is("setpos") /\ Same
        /\ LET new == New
           IN /\ C("positions: contents", SetPosC(ToSet(E.upd), new))
              /\ P("positions: place", StayP(new))
              /\ Step(new)
TVal == /\ Is("setval") /\ Same
        /\ LET new == New
           IN /\ C("values: contents", SetValC(E.name, ToSet(E.upd), new))
              /\ P("values: place", StayP(new))
              /\ Step(new)
TAddDat == /\ Is("adddat") /\ Same
           /\ LET new == New
              IN /\ C("new property: contents", AddDatC(E.name, new))
                 /\ P("new property: place", StayP(new))
                 /\ Step(new)
TDelDat == /\ Is("deldat") /\ Same
           /\ LET new == New
              IN /\ C("removed property: contents", DelDatC(E.name, new))
                 /\ P("removed property: place", StayP(new))
                 /\ Step(new)

TNext == THead \/ TEnd \/ TInit1 \/ TStart \/ TKept \/ TAdd \/ TRm \/ TClear \/ THyb \/ TCell \/ TGlob
         \/ TLoc \/ TShuf \/ TPos \/ TVal \/ TAddDat \/ TDelDat
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
