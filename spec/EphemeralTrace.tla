--------------------------- MODULE EphemeralTrace ---------------------------
EXTENDS Ephemeral, TraceIO
VARIABLES kinds, rows, fixed, eph, held, l
vars == <<kinds, rows, fixed, eph, held, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ kinds = <<>> /\ rows = <<>> /\ fixed = <<>> /\ eph = <<>>
         /\ held = {}
TEnd == Is("end") /\ Step /\ UNCHANGED <<kinds, rows, fixed, eph, held>>
Ranks == DOMAIN rows
\* who is in sub-group s on rank r; static ones (2) keep their first members
In(s, r) == IF kinds[s] = 2 THEN fixed[r] ELSE Members(kinds[s], rows[r])
---------------------------------------------------------------------------
TWorld0 ==
  /\ Is("init") /\ Step /\ kinds' = E.kinds /\ rows' = E.rows /\ UNCHANGED held
  /\ fixed' = [r \in DOMAIN E.rows |-> Members(1, E.rows[r])]
  /\ eph' = [s \in DOMAIN E.kinds |-> [r \in DOMAIN E.rows |-> <<>>]]
TWorld ==
  /\ Is("world") /\ Step /\ UNCHANGED <<kinds, fixed, held>> /\ rows' = E.rows
  /\ eph' = [s \in DOMAIN kinds |-> [r \in Ranks |->
               [n \in DOMAIN eph[s][r] |->
                  [eph[s][r][n] EXCEPT !.clean = @ /\ ~Affects(E.what, kinds[s])]]]]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
TContains ==
  /\ Is("contains") /\ Step /\ UNCHANGED <<kinds, rows, fixed, held>>
  /\ \A r \in Ranks :
       IF E.n \notin DOMAIN eph[E.s][r]
       THEN Must(l, "what was not added is not there", ~E.got[r])
       ELSE LET e == eph[E.s][r][E.n]
            IN /\ Must(l, "it stays while nothing happens", e.clean => E.got[r])
               /\ Must(l, "it vanishes when the members change",
                    DOMAIN e.vals # In(E.s, r) => ~E.got[r])
  /\ eph' = [eph EXCEPT ![E.s] = [r \in Ranks |->
               IF E.got[r] \/ E.n \notin DOMAIN eph[E.s][r] THEN eph[E.s][r]
               ELSE Without(eph[E.s][r], E.n)]]
\* adding it again does nothing (ncomp is 0 then)
TAdd ==
  /\ Is("add") /\ Step /\ UNCHANGED <<kinds, rows, fixed, held>>
  /\ eph' = [eph EXCEPT ![E.s] = [r \in Ranks |->
               IF E.ncomp[r] = 0 THEN eph[E.s][r]
               ELSE (E.n :> Fresh(E.ncomp[r], In(E.s, r))) @@ eph[E.s][r]]]
TRemove ==
  /\ Is("remove") /\ Step /\ UNCHANGED <<kinds, rows, fixed, held>>
  /\ eph' = [eph EXCEPT ![E.s] = [r \in Ranks |-> Without(eph[E.s][r], E.n)]]
TWrite ==
  /\ Is("write") /\ Step /\ UNCHANGED <<kinds, rows, fixed, held>>
  /\ eph' = [eph EXCEPT ![E.s] = [r \in Ranks |->
               IF E.comp[r] < 0 THEN eph[E.s][r]
               ELSE [eph[E.s][r] EXCEPT ![E.n] = Written(@, E.comp[r] + 1, E.salt)]]]
TRead ==
  /\ Is("read") /\ Step /\ UNCHANGED <<kinds, rows, fixed, eph, held>>
  /\ \A r \in Ranks :
       LET n == E.ncomp[r]
       IN IF n = 0
          THEN Must(l, "nothing to read", \A i \in DOMAIN E.got[r] : E.got[r][i][2] = -7)
          ELSE LET e == eph[E.s][r][E.n]
               IN /\ Must(l, "the number of components", e.ncomp = n)
                  /\ \A i \in DOMAIN E.got[r] :
                       LET g == E.got[r][i]
                       IN IF g[1] \in DOMAIN e.vals
                          THEN Must(l, "every member reads what was written for it",
                                 \A c \in 1 .. n : e.vals[g[1]][c] \in {Unset, g[c + 1]})
                          ELSE Must(l, "only members read", g[2] = -7)
\* a vector of other properties: x and id of every member
TOthers ==
  /\ (Is("others") \/ Is("loopall")) /\ Step
  /\ UNCHANGED <<kinds, rows, fixed, eph, held>>
  /\ Must(l, "a loop reads the current properties of its particles",
       \A r \in Ranks :
         /\ Len(E.got[r]) = Len(rows[r])
         /\ \A i \in DOMAIN rows[r] :
              E.got[r][i] = IF E.s = 0 \/ rows[r][i][1] \in In(E.s, r)
                            THEN <<rows[r][i][1], rows[r][i][3], rows[r][i][1]>>
                            ELSE <<rows[r][i][1], -7, -7>>)
---------------------------------------------------------------------------
(* Pools: held is the set of objects that somebody has                        *)
TPools == Is("pools") /\ Step /\ UNCHANGED <<kinds, rows, fixed, eph>> /\ held' = {}
TTake ==
  /\ Is("take") /\ Step /\ UNCHANGED <<kinds, rows, fixed, eph>>
  /\ Must(l, "nobody has what is handed out", \A h \in held : h[2] # E.id)
  /\ Must(l, "what is handed out is as new", E.state = "ok")
  /\ held' = held \cup {<<E.kind, E.id>>}
TGive ==
  /\ Is("give") /\ Step /\ UNCHANGED <<kinds, rows, fixed, eph>>
  /\ Must(l, "nobody else touched it", E.state = "ok")
  /\ <<E.kind, E.id>> \in held
  /\ held' = held \ {<<E.kind, E.id>>}
---------------------------------------------------------------------------
TNext == TWorld0 \/ TWorld \/ TContains \/ TAdd \/ TRemove \/ TWrite \/ TRead
         \/ TOthers \/ TPools \/ TTake \/ TGive \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
