----------------------------- MODULE SurfaceCache ---------------------------
(* A function on boundary elements is evaluated from a copy of the owners'    *)
(* values that each rank keeps for the elements it has met. The copy is       *)
(* fetched again when the function or the set of elements has changed since:  *)
(* the elements have a version that grows, a change of the function resets    *)
(* the version of its copy. Projection uses the same storage as the copy.     *)
(* With Gen, every sequence of Depth operations is printed and replayed in    *)
(* the real code.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NE, Depth, Gen
VARIABLES val, copy, met, version, seenver, hist, stamp, open
vars == <<val, copy, met, version, seenver, hist, stamp, open>>
El == 0 .. NE - 1
None == -1
Init == /\ val = [e \in El |-> 0] /\ copy = [e \in El |-> None]
        /\ met = {} /\ version = 1 /\ seenver = 0 /\ hist = <<>> /\ stamp = 1
        /\ open = FALSE
Log(o) == hist' = Append(hist, o) /\ Len(hist) < Depth
\* particles hit elements S; the elements that are new extend the copy
Hit(S) == /\ Log("hit") /\ met' = met \cup S
          /\ version' = IF S \subseteq met THEN version ELSE version + 1
          /\ UNCHANGED <<val, copy, seenver, stamp, open>>
Set == /\ ~open /\ Log("set") /\ val' = [e \in El |-> stamp] /\ stamp' = stamp + 1
       /\ seenver' = 0 /\ UNCHANGED <<copy, met, version, open>>
\* the parts of a projection: the storage of the copy is zeroed and summed up
Start == /\ Log("init") /\ copy' = [e \in El |-> IF e \in met THEN 0 ELSE None]
         /\ val' = [e \in El |-> 0] /\ seenver' = 0 /\ open' = TRUE
         /\ UNCHANGED <<met, version, stamp>>
Add == /\ open /\ Log("add")
       /\ copy' = [e \in El |-> IF e \in met
                     THEN (IF copy[e] = None THEN 0 ELSE copy[e]) + 1 ELSE None]
       /\ UNCHANGED <<val, met, version, seenver, stamp, open>>
Finish == /\ open /\ Log("finish") /\ open' = FALSE
          /\ val' = [e \in El |-> IF copy[e] = None THEN 0 ELSE copy[e]]
          /\ seenver' = 0 /\ UNCHANGED <<copy, met, version, stamp>>
Eval == /\ ~open /\ Log("eval")
        /\ IF seenver < version
           THEN /\ copy' = [e \in El |-> IF e \in met THEN val[e] ELSE None]
                /\ seenver' = version
           ELSE UNCHANGED <<copy, seenver>>
        /\ UNCHANGED <<val, met, version, stamp, open>>
Next == \/ \E S \in SUBSET El : S # {} /\ Hit(S)
        \/ Set \/ Start \/ Add \/ Finish \/ Eval
Spec == Init /\ [][Next]_vars
\* a copy that is taken to be current is current
Current == (seenver >= version /\ ~open) =>
             \A e \in met : copy[e] = val[e]
Symmetric == Permutations(El)
Show == (Gen /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist]))
=============================================================================
