--------------------------- MODULE SubGroupsTrace ---------------------------
EXTENDS SubGroups, TraceIO
VARIABLE l
vars == <<st, def, frz, clean, moved, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ st = <<>> /\ def = <<>> /\ frz = <<>> /\ clean = {} /\ moved = {}
THead == /\ Is("init") /\ Step /\ st' = <<>> /\ def' = <<>> /\ frz' = <<>>
         /\ clean' = {} /\ moved' = {}
TEnd == Is("end") /\ Step /\ UNCHANGED <<st, def, frz, clean, moved>>
TSet ==
  /\ Is("set") /\ Step /\ st' = E.st /\ UNCHANGED <<def, frz>>
  /\ IF E.grp THEN IF st = <<>> THEN UNCHANGED <<clean, moved>> ELSE GroupOp(E.st)
     ELSE UNCHANGED <<clean, moved>>
TSub ==
  /\ Is("sub") /\ Step /\ UNCHANGED <<st, frz, clean, moved>>
  /\ def' = [s \in DOMAIN def \union {E.s} |->
       IF s = E.s THEN [kind |-> E.kind, p |-> E.p, a |-> E.a, lo |-> E.lo,
                        hi |-> E.hi, trunc |-> E.trunc, stat |-> FALSE]
       ELSE def[s]]
Ob == [s \in {o.s : o \in ToSet(E.obs)} |->
         (CHOOSE o \in ToSet(E.obs) : o.s = s).ob]
Observed ==
  /\ \A o \in ToSet(E.obs) :
       /\ Must(l, "members of " \o def[o.s].kind, Correct(Ob, o.s))
       /\ Must(l, "counts of " \o def[o.s].kind, CountsOk(o))
TUse == Is("use") /\ Step /\ Observed /\ UNCHANGED <<st, def, frz, clean, moved>>
\* the observation that goes with freezing is that of the current members
TStatic ==
  /\ Is("static") /\ Step /\ Observed
  /\ def' = [def EXCEPT ![E.s].stat = TRUE]
  /\ frz' = [s \in DOMAIN frz \union {E.s} |-> IF s = E.s THEN Ob[s] ELSE frz[s]]
  /\ clean' = clean \union {E.s} /\ moved' = {x \in moved : x[1] # E.s}
  /\ UNCHANGED st
TUnstatic ==
  /\ Is("unstatic") /\ Step /\ def' = [def EXCEPT ![E.s].stat = FALSE]
  /\ UNCHANGED <<st, frz, clean, moved>>
TValid ==
  /\ Is("valid") /\ Step /\ UNCHANGED <<st, def, frz, clean, moved>>
  /\ \A x \in ToSet(E.vs) : \A r \in DOMAIN x.v :
       Must(l, "validity", ValidOk(x.s, r, x.v[r]))
TRefuse ==
  /\ Is("refuse") /\ Step /\ UNCHANGED <<st, def, frz, clean, moved>>
  /\ \A r \in DOMAIN E.v : Must(l, "use of an invalid static sub-group", E.v[r] \/ E.ok[r])
TDrop ==
  /\ Is("drop") /\ Step /\ UNCHANGED <<st, frz, clean, moved>>
  /\ def' = [s \in DOMAIN def \ {E.s} |-> def[s]]
\* a loop over sub-group s that writes column c
ValOf(id) == (CHOOSE x \in ToSet(E.val) : x[1] = id)[2]
TWSub ==
  /\ Is("wsub") /\ Step /\ st' = E.st /\ UNCHANGED <<def, frz, clean, moved>>
  /\ Must(l, "members a loop writes (" \o def[E.s].kind \o ")",
       E.st = [r \in Ranks |-> [c \in Cells(r) |-> [k \in DOMAIN st[r][c] |->
         IF In(E.s, r, c, k) THEN [st[r][c][k] EXCEPT ![E.c + 2] = ValOf(st[r][c][k][1])]
         ELSE st[r][c][k]]]])
TRmSub ==
  /\ Is("rmsub") /\ Step /\ st' = E.st /\ UNCHANGED <<def, frz>> /\ GroupOp(E.st)
  /\ Must(l, "members a removal removes (" \o def[E.s].kind \o ")",
       \A r \in Ranks : \A c \in Cells(r) :
         ToSet(E.st[r][c]) = {st[r][c][k] : k \in {j \in DOMAIN st[r][c] : ~In(E.s, r, c, j)}})
TNext == THead \/ TEnd \/ TSet \/ TSub \/ TUse \/ TStatic \/ TUnstatic \/ TValid
         \/ TRefuse \/ TDrop \/ TWSub \/ TRmSub
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
