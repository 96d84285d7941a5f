------------------------------- MODULE SetUnion -----------------------------
(* The union of sets held by N ranks, reduced along a tree of messages to     *)
(* rank 0 and sent on to the root. Ranks that exceed a power of two hand over *)
(* their sets first. Sends are buffered or not: Ready(r) says that the        *)
(* receiver waits, so without buffering (Sync) a send needs its receiver.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, Sync
VARIABLES N, root, set, pc, net
vars == <<N, root, set, pc, net>>
Ranks == 0 .. N - 1
RECURSIVE Below(_, _)
Below(p, m) == IF 2 * p > m THEN p ELSE Below(2 * p, m)
P == Below(1, N)
RECURSIVE Halves(_)
Halves(s) == IF s = 0 THEN <<>> ELSE <<s>> \o Halves(s \div 2)
\* the program of rank r: a sequence of <<"send", to>> and <<"recv", from>>
Program(r) ==
  IF N = 1 THEN <<>> ELSE
  (IF P = N THEN <<>>
   ELSE IF r < N - P THEN <<<<"recv", P + r>>>>
   ELSE IF r >= P THEN <<<<"send", r - P>>>> ELSE <<>>)
  \o LET h == Halves(P \div 2)
         step(s) == IF r < s THEN <<<<"recv", r + s>>>>
                    ELSE IF r < 2 * s THEN <<<<"send", r - s>>>> ELSE <<>>
         RECURSIVE All(_)
         All(i) == IF i > Len(h) THEN <<>> ELSE step(h[i]) \o All(i + 1)
     IN All(1)
  \o (IF root = 0 THEN <<>>
      ELSE IF r = 0 THEN <<<<"send", root>>>>
      ELSE IF r = root THEN <<<<"take", 0>>>> ELSE <<>>)
Init == /\ N \in 1 .. MaxN /\ root \in 0 .. MaxN - 1 /\ root < N
        /\ set = [r \in 0 .. N - 1 |-> {r}] /\ pc = [r \in 0 .. N - 1 |-> 1]
        /\ net = [a \in (0 .. N - 1) \X (0 .. N - 1) |-> <<>>]
At(r) == Program(r)[pc[r]]
Active(r) == pc[r] <= Len(Program(r))
Go(r) == pc' = [pc EXCEPT ![r] = @ + 1]
Send(r) ==
  /\ Active(r) /\ At(r)[1] = "send"
  /\ LET to == At(r)[2]
     IN IF Sync
        THEN /\ Active(to) /\ At(to)[1] \in {"recv", "take"} /\ At(to)[2] = r
             /\ set' = [set EXCEPT ![to] = IF At(to)[1] = "take" THEN set[r] ELSE @ \cup set[r]]
             /\ pc' = [pc EXCEPT ![r] = @ + 1, ![to] = @ + 1] /\ UNCHANGED net
        ELSE /\ net' = [net EXCEPT ![<<r, to>>] = Append(@, set[r])]
             /\ Go(r) /\ UNCHANGED set
  /\ UNCHANGED <<N, root>>
Recv(r) ==
  /\ ~Sync /\ Active(r) /\ At(r)[1] \in {"recv", "take"}
  /\ LET from == At(r)[2]
         q == net[<<from, r>>]
     IN /\ q # <<>>
        /\ set' = [set EXCEPT ![r] = IF At(r)[1] = "take" THEN q[1] ELSE @ \cup q[1]]
        /\ net' = [net EXCEPT ![<<from, r>>] = Tail(@)]
  /\ Go(r) /\ UNCHANGED <<N, root>>
Next == \E r \in Ranks : Send(r) \/ Recv(r)
Spec == Init /\ [][Next]_vars
Over == \A r \in Ranks : ~Active(r)
\* nobody waits for ever, the root has everything, no message is left over
NoneStuck == Over \/ ENABLED Next
Right == Over => /\ set[root] = Ranks
                 /\ \A a \in DOMAIN net : net[a] = <<>>
=============================================================================
