---------------------------- MODULE LookupTrace -----------------------------
(* Lookup trees and tables are maps from keys to values, whatever way they    *)
(* are read; LookupTree shows that the tree of blocks is such a map.          *)
EXTENDS TraceIO, Integers
VARIABLES map, l
vars == <<map, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
TInit == l = 1 /\ map = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED map
TWorld == Is("init") /\ Step /\ map' = <<>>
TNew == Is("new") /\ Step /\ map' = (E.c :> <<>>) @@ map
TAdd == Is("add") /\ Step
        /\ map' = [map EXCEPT ![E.c] = (E.key :> E.value) @@ @]
TGet == /\ Is("get") /\ Step /\ UNCHANGED map
        /\ LET m == map[E.c]
           IN \A i \in DOMAIN E.got :
                LET k == E.got[i][1] v == E.got[i][2]
                IN IF k \in DOMAIN m
                   THEN Must(l, "a key that was added has its last value", v = m[k])
                   ELSE Must(l, "other keys are absent", v = "absent")
RECURSIVE Linear(_, _, _)
Linear(shape, at, d) ==
  IF d = 0 THEN 0 ELSE Linear(shape, at, d - 1) * shape[d] + at[d]
RECURSIVE Product(_, _)
Product(s, d) == IF d = 0 THEN 1 ELSE Product(s, d - 1) * s[d]
TIndex ==
  /\ Is("index") /\ Step /\ UNCHANGED map
  /\ LET n == Len(E.shape)
     IN /\ Must(l, "the size of an index", E.size = Product(E.shape, n))
        /\ Must(l, "indices are row major",
             \A i \in DOMAIN E.at : E.at[i][2] = Linear(E.shape, E.at[i][1], n))
        /\ Must(l, "indices are distinct and fill the size",
             {E.at[i][2] : i \in DOMAIN E.at} = 0 .. E.size - 1
             /\ Len(E.at) = E.size)
TNext == TWorld \/ TNew \/ TAdd \/ TGet \/ TIndex \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
