----------------------------- MODULE MeshClaim -----------------------------
(* Design model of the distributed claim: ranks on nodes, one table per node  *)
(* updated with atomic maxima, a reduction over the nodes, then the ranks     *)
(* whose weight is the maximum put their rank in, and a second reduction.     *)
(* Checked against Mesh!Winner for all claims and all interleavings.          *)
EXTENDS Mesh, TLC, Json
CONSTANTS NRank, NNode, NCell, MaxW, MaxClaims, NGen
Ranks == 1 .. NRank
Node(r) == ((r - 1) * NNode) \div NRank + 1
Mask == -1000
VARIABLES todo,    \* claims each rank still has to make
          made,    \* claims made, in order, per rank
          table,   \* per node, per cell
          binned,  \* cells the rank won by weight
          phase, hist
vars == <<todo, made, table, binned, phase, hist>>
Claims == (0 .. (NCell - 1)) \X (1 .. MaxW)
Max2(a, b) == IF a > b THEN a ELSE b
Seqs == UNION {[1 .. n -> Claims] : n \in 0 .. MaxClaims}
Blank == [n \in 1 .. NNode |-> [c \in 1 .. NCell |-> Mask]]
Init == /\ todo \in [Ranks -> Seqs] /\ made = [r \in Ranks |-> <<>>]
        /\ table = Blank /\ binned = [r \in Ranks |-> <<>>] /\ phase = "claim"
        /\ hist = <<>>
Put(n, c, v) == table' = [table EXCEPT ![n][c + 1] = Max2(@, v)]
Claim(r) == /\ phase = "claim" /\ todo[r] # <<>>
            /\ LET x == Head(todo[r]) IN
                 /\ Put(Node(r), x[1], x[2] + Mask)
                 /\ made' = [made EXCEPT ![r] = Append(@, x)]
                 /\ hist' = Append(hist, <<r - 1, x[1], x[2]>>)
            /\ todo' = [todo EXCEPT ![r] = Tail(@)]
            /\ UNCHANGED <<binned, phase>>
Reduced == [n \in 1 .. NNode |-> [c \in 1 .. NCell |->
              LET V == {table[k][c] : k \in 1 .. NNode}
              IN CHOOSE v \in V : \A u \in V : u <= v]]
Reduce1 == /\ phase = "claim" /\ \A r \in Ranks : todo[r] = <<>>
           /\ table' = Reduced /\ phase' = "rank"
           /\ binned' = [r \in Ranks |-> SelectSeq(made[r], LAMBDA x :
                           x[2] + Mask >= Reduced[Node(r)][x[1] + 1])]
           /\ UNCHANGED <<todo, made, hist>>
Settle(r) == /\ phase = "rank" /\ binned[r] # <<>>
             /\ Put(Node(r), Head(binned[r])[1], r - 1)
             /\ binned' = [binned EXCEPT ![r] = Tail(@)]
             /\ UNCHANGED <<todo, made, phase, hist>>
Reduce2 == /\ phase = "rank" /\ \A r \in Ranks : binned[r] = <<>>
           /\ table' = Reduced /\ phase' = "done" /\ UNCHANGED <<todo, made, binned, hist>>
Next == (\E r \in Ranks : Claim(r) \/ Settle(r)) \/ Reduce1 \/ Reduce2
Spec == Init /\ [][Next]_vars
View == <<todo, made, table, binned, phase>>
Owner(n, c) == IF table[n][c] < 0 THEN -1 ELSE table[n][c]
\* one owner for each cell, the same on every node, and the right one
Right == phase = "done" => \A n \in 1 .. NNode : \A c \in 1 .. NCell :
            Owner(n, c) = Winner(made, c - 1)
OnlyClaimants == phase = "done" => \A c \in 1 .. NCell :
   Owner(1, c) # -1 => \E i \in DOMAIN made[Owner(1, c) + 1] : made[Owner(1, c) + 1][i][1] = c - 1

(* Interleavings for the implementation to repeat. *)
Rand(n) == [r \in Ranks |-> [i \in 1 .. RandomElement(0 .. n) |-> RandomElement(Claims)]]
GInit == Init /\ \E k \in 1 .. NGen : todo = Rand(MaxClaims)
GAsk == phase = "done" => PrintT("BEHAVIOUR " \o ToJson([n |-> NRank, h |-> hist]))
=============================================================================
