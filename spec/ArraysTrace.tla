---------------------------- MODULE ArraysTrace ----------------------------
EXTENDS Arrays, TraceIO
VARIABLE l
vars == <<st, la, lr, ga, gr, nd, cc, cr, cd, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Take == /\ st' = E.st /\ la' = E.la /\ lr' = E.lr /\ ga' = E.ga[1]
        /\ gr' = E.gr[1] /\ nd' = E.nd /\ cc' = E.cc /\ cr' = E.cr /\ cd' = E.cd
        /\ l' = l + 1
None == <<>>
Clear == /\ st' = None /\ la' = None /\ lr' = None /\ ga' = None /\ gr' = None
         /\ nd' = None /\ cc' = None /\ cr' = None /\ cd' = None
TInit == /\ l = 1 /\ st = None /\ la = None /\ lr = None /\ ga = None
         /\ gr = None /\ nd = None /\ cc = None /\ cr = None /\ cd = None
THead == Is("init") /\ Clear /\ l' = l + 1
TEnd == Is("end") /\ l' = l + 1 /\ UNCHANGED <<st, la, lr, ga, gr, nd, cc, cr, cd>>
Zero(s) == \A r \in DOMAIN s : \A i \in DOMAIN s[r] : s[r][i] = 0
TSet ==
  /\ Is("set")
  /\ IF E.why = "start"
       THEN /\ Must(l, "initial values", /\ Zero(E.lr) /\ Zero(E.gr) /\ Zero(E.nd)
                 /\ \A r \in DOMAIN E.cc : Zero(E.cc[r]) /\ Zero(E.cr[r]))
            /\ Must(l, "global arrays agree", Same(E.ga, E.ga[1]) /\ Same(E.gr, E.gr[1]))
       ELSE Must(l, "containers keep their values",
              /\ E.la = la /\ E.lr = lr /\ Same(E.ga, ga) /\ Same(E.gr, gr)
              /\ E.nd = nd /\ E.cc = cc /\ E.cr = cr /\ E.cd = cd)
  /\ Take
TLoop ==
  /\ Is("loop")
  /\ Must(l, "local array", E.la = LaNew(E) /\ E.lr = LrNew(E))
  /\ Must(l, "n-dimensional array", E.nd = NdNew(E))
  /\ Must(l, "global array", Same(E.ga, GaNew(E)) /\ Same(E.gr, GrNew(E)))
  /\ Must(l, "cell container", E.cc = CcNew(E) /\ E.cr = CrNew(E))
  /\ Must(l, "cell rows container", E.cd = CdNew(E))
  /\ Must(l, "what the particles read", Reads(E, E.st))
  /\ E.op = "ticket" => Must(l, "tickets", Tickets(E, E.st))
  /\ Take
THost ==
  /\ Is("host")
  /\ Must(l, "host write of a local array", E.la = HostLa(E) /\ E.lr = lr)
  /\ Must(l, "host write of an n-dimensional array", E.nd = HostNd(E))
  /\ Must(l, "host write of a global array", Same(E.ga, HostGa(E)) /\ Same(E.gr, gr))
  /\ Must(l, "host write of a cell container",
          E.cc = CellHost(E, "cc", cc) /\ E.cr = CellHost(E, "cr", cr))
  /\ Must(l, "host write of cell rows", E.cd = HostCd(E))
  /\ Must(l, "particles unchanged", E.st = st)
  /\ Take
TNext == THead \/ TEnd \/ TSet \/ TLoop \/ THost
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
