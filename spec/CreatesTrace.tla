---------------------------- MODULE CreatesTrace ----------------------------
EXTENDS Creates, TraceIO
VARIABLE l
vars == <<g, sch, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ g = <<>> /\ sch = <<>>
THead == Is("init") /\ Step /\ g' = <<>> /\ sch' = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<g, sch>>
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
\* a group as the application set it up
TSet == Is("set") /\ Step /\ g' = Put(g, E.g, E.st) /\ sch' = Put(sch, E.g, E.sch)
Others == \A x \in DOMAIN E.rest : Must(l, "another group is untouched", E.rest[x] = g[x])
Adds(made) ==
  /\ Step /\ UNCHANGED sch /\ g' = [g EXCEPT ![E.d] = E.st] /\ Others
  /\ Must(l, "particles created (" \o E.ev \o ")", Created(E.d, made, E.st))
TPm == Is("pm") /\ Adds(FromMatrix(E.d, E.rows, E.def, E.hascell))
TDesc == Is("desc") /\ Adds(FromParents(E.d, E.s, E.ch, E.def, E.hascell))
TGrp == Is("grp") /\ Adds(FromGroup(E.d, E.s, E.which))
\* a temporary group has the properties of its group and no particles
TTemp ==
  /\ Is("temp") /\ Step /\ UNCHANGED <<g, sch>>
  /\ Must(l, "properties of a temporary group", E.sch = sch[E.s])
  /\ Must(l, "a temporary group is empty",
          \A r \in DOMAIN E.n : E.n[r] = 0)
TNext == THead \/ TEnd \/ TSet \/ TPm \/ TDesc \/ TGrp \/ TTemp
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
