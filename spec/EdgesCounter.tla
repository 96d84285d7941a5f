------------------------------ MODULE EdgesCounter ---------------------------
(* How ranks find out who speaks to them: each resets its counter, all meet,  *)
(* each adds one to the counter of everybody it speaks to, all meet, each     *)
(* reads how many messages to take from anywhere. Meetings do not block the   *)
(* one who arrives (Ibarrier) but the one who waits. Rounds follow each other *)
(* and use the same counter and the same kind of message.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Rounds, Meet1, Meet2
VARIABLES to, round, pc, todo, count, want, met, net, heard
vars == <<to, round, pc, todo, count, want, met, net, heard>>
Ranks == 0 .. N - 1
Zero == [r \in Ranks |-> 0]
Init ==
  /\ to \in [Ranks -> SUBSET Ranks]
  /\ round = [r \in Ranks |-> 1] /\ pc = [r \in Ranks |-> "reset"]
  /\ todo = [r \in Ranks |-> {}] /\ count = Zero /\ want = Zero
  /\ met = [r \in Ranks |-> 0]       \* meetings at which r has arrived
  /\ net = {} /\ heard = [r \in Ranks |-> {}]
\* in round k rank r speaks to the ranks of r + k - 1
To(r, k) == to[(r + k - 1) % N]
AllAt(m) == \A r \in Ranks : met[r] >= m
Become(r, p) == pc' = [pc EXCEPT ![r] = p]
Reset(r) == /\ pc[r] = "reset" /\ count' = [count EXCEPT ![r] = 0]
            /\ met' = [met EXCEPT ![r] = @ + 1] /\ Become(r, "wait1")
            /\ UNCHANGED <<to, round, todo, want, net, heard>>
Wait1(r) == /\ pc[r] = "wait1" /\ (Meet1 => AllAt(met[r]))
            /\ todo' = [todo EXCEPT ![r] = To(r, round[r])] /\ Become(r, "add")
            /\ UNCHANGED <<to, round, count, want, met, net, heard>>
Add(r) == /\ pc[r] = "add" /\ todo[r] # {}
          /\ \E t \in todo[r] : /\ count' = [count EXCEPT ![t] = @ + 1]
                                /\ todo' = [todo EXCEPT ![r] = @ \ {t}]
          /\ UNCHANGED <<to, round, pc, want, met, net, heard>>
Added(r) == /\ pc[r] = "add" /\ todo[r] = {} /\ met' = [met EXCEPT ![r] = @ + 1]
            /\ Become(r, "wait2")
            /\ UNCHANGED <<to, round, todo, count, want, net, heard>>
Wait2(r) == /\ pc[r] = "wait2" /\ (Meet2 => AllAt(met[r]))
            /\ want' = [want EXCEPT ![r] = count[r]]
            /\ net' = net \cup {<<r, t, round[r]>> : t \in To(r, round[r])}
            /\ heard' = [heard EXCEPT ![r] = {}] /\ Become(r, "hear")
            /\ UNCHANGED <<to, round, todo, count, met>>
Hear(r) == /\ pc[r] = "hear" /\ want[r] > 0
           /\ \E m \in net : /\ m[2] = r
                             \* messages of one sender arrive in order
                             /\ \A o \in net : o[1] = m[1] /\ o[2] = r => o[3] >= m[3]
                             /\ heard' = [heard EXCEPT ![r] = @ \cup {<<m[1], m[3]>>}]
                             /\ net' = net \ {m}
           /\ want' = [want EXCEPT ![r] = @ - 1]
           /\ UNCHANGED <<to, round, pc, todo, count, met>>
Heard(r) == /\ pc[r] = "hear" /\ want[r] = 0
            /\ IF round[r] = Rounds THEN Become(r, "over") /\ UNCHANGED round
               ELSE Become(r, "reset") /\ round' = [round EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<to, todo, count, want, met, net, heard>>
Next == \E r \in Ranks : Reset(r) \/ Wait1(r) \/ Add(r) \/ Added(r) \/ Wait2(r)
                         \/ Hear(r) \/ Heard(r)
Spec == Init /\ [][Next]_vars
Over == \A r \in Ranks : pc[r] = "over"
NoneStuck == Over \/ ENABLED Next
\* what was heard belongs to this round and was said to r; at the end all of it
Right == \A r \in Ranks : pc[r] \in {"hear", "over", "reset"} =>
  LET said == {<<s, round[r]>> : s \in {t \in Ranks : r \in To(t, round[r])}}
  IN /\ pc[r] = "hear" => heard[r] \subseteq said
     /\ (pc[r] = "over" \/ (pc[r] = "hear" /\ want[r] = 0)) => heard[r] = said
=============================================================================
