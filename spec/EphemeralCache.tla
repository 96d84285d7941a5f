---------------------------- MODULE EphemeralCache --------------------------
(* A loop that takes a vector of properties gets their addresses from a table *)
(* that is kept for each vector. Properties come and go: an attached one is   *)
(* removed by hand or when the members of the sub-group change, an ordinary   *)
(* one by hand. The memory of a removed one may be used for the next one.     *)
(* With Gen, every sequence of Depth operations is printed and replayed in    *)
(* the real code. Always says when the table is compared with the properties: *)
(* the code that was found in the repository only did so for vectors it had   *)
(* not met (Always = FALSE), and used addresses of memory that was gone.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Addr, Depth, Gen, Always
VARIABLES at, table, used, hist
vars == <<at, table, used, hist>>
None == 0
Keys == {<<"X">>, <<"X", "E">>, <<"E">>}
Init == /\ at = [X |-> 1, E |-> None] /\ table = [k \in Keys |-> <<>>]
        /\ used = <<>> /\ hist = <<>>
Log(o) == hist' = Append(hist, o) /\ Len(hist) < Depth
Free == Addr \ {at["X"], at["E"]}
Put(d) == \E a \in Free : at' = [at EXCEPT ![d] = a]
AddE == /\ at["E"] = None /\ Log("add") /\ Put("E") /\ UNCHANGED table /\ used' = <<>>
RemoveE == /\ at["E"] # None /\ Log("remove") /\ at' = [at EXCEPT !["E"] = None]
           /\ UNCHANGED table /\ used' = <<>>
\* the members change: what is attached goes, with the vectors it is in
Change == /\ Log("change") /\ at' = [at EXCEPT !["E"] = None] /\ used' = <<>>
          /\ table' = [k \in Keys |-> IF k = <<"X">> THEN table[k] ELSE <<>>]
\* the new one is allocated after the old one was freed: any address
Remake == /\ Log("remake") /\ used' = <<>> /\ UNCHANGED table
          /\ \E a \in Addr \ {at["E"]} : at' = [at EXCEPT !["X"] = a]
Now(k) == [i \in DOMAIN k |-> at[k[i]]]
Loop(k, o) ==
  /\ \A i \in DOMAIN k : at[k[i]] # None
  /\ Log(o)
  /\ LET t == IF table[k] = <<>> \/ (Always /\ table[k] # Now(k)) THEN Now(k) ELSE table[k]
     IN /\ table' = [table EXCEPT ![k] = t]
        /\ used' = [i \in DOMAIN k |-> <<k[i], t[i]>>]
  /\ UNCHANGED at
Next == AddE \/ RemoveE \/ Change \/ Remake
        \/ Loop(<<"X">>, "readx") \/ (\E k \in {<<"E">>, <<"X", "E">>} : Loop(k, "write"))
        \/ (\E k \in {<<"E">>, <<"X", "E">>} : Loop(k, "read"))
Spec == Init /\ [][Next]_vars
Fresh == \A i \in DOMAIN used : used[i][2] = at[used[i][1]]
Show == (Gen /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist]))
=============================================================================
