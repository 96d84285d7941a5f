----------------------------- MODULE LookupTree -----------------------------
(* The blocked binary tree: keys are grouped in blocks of Width; a block is a *)
(* node of an unbalanced binary search tree; a node that is needed is put     *)
(* under the root by walking to where it would be. It must behave as a map,   *)
(* for every order of insertion.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Width, Below, High, Depth, Gen
VARIABLES nodes, root, map, hist
vars == <<nodes, root, map, hist>>
Low == -Below
Keys == Low .. High
None == -1000
\* as the code computes them, for both signs
Block(k) == IF k < 0 THEN -(((-k - 1) \div Width) + 1) ELSE k \div Width
Leaf(k) == IF k < 0 THEN Width - 1 - ((-k - 1) % Width) ELSE k % Width
ASSUME \A k \in Keys : Block(k) * Width + Leaf(k) = k /\ Leaf(k) \in 0 .. Width - 1
Empty == [x \in 0 .. Width - 1 |-> None]
Init == nodes = <<>> /\ root = None /\ map = <<>> /\ hist = <<>>
\* the node after n on the way to block b
Next1(N, n, b) == IF b < n THEN N[n].lhs ELSE IF b > n THEN N[n].rhs ELSE n
RECURSIVE Walk(_, _, _)
Walk(N, n, b) == IF Next1(N, n, b) \in {None, n} THEN n ELSE Walk(N, Next1(N, n, b), b)
RECURSIVE Find(_, _, _)
Find(N, n, b) == IF n = None \/ n = b THEN n ELSE Find(N, Next1(N, n, b), b)
Add(k, v) ==
  LET b == Block(k)
      fresh == b \notin DOMAIN nodes
      leaf == [(IF fresh THEN Empty ELSE nodes[b].data) EXCEPT ![Leaf(k)] = v]
      self == IF fresh THEN [lhs |-> None, rhs |-> None, data |-> leaf]
              ELSE [nodes[b] EXCEPT !.data = leaf]
      at == IF fresh /\ root # None THEN Walk(nodes, root, b) ELSE None
      linked == IF at = None THEN nodes
                ELSE [nodes EXCEPT ![at] =
                        IF b < at THEN [@ EXCEPT !.lhs = b] ELSE [@ EXCEPT !.rhs = b]]
  IN /\ Len(hist) < Depth
     /\ nodes' = (b :> self) @@ linked
     /\ root' = IF root = None THEN b ELSE root
     /\ map' = (k :> v) @@ map
     /\ hist' = Append(hist, k)
Next == \E k \in Keys : Add(k, Len(hist) + 1)
Spec == Init /\ [][Next]_vars
Get(k) == IF root = None THEN None
          ELSE LET n == Find(nodes, root, Block(k))
               IN IF n = None THEN None ELSE nodes[n].data[Leaf(k)]
IsMap == \A k \in Low - 1 .. High + 1 :
           Get(k) = IF k \in DOMAIN map THEN map[k] ELSE None
\* every node hangs in one place
Shape == \A n \in DOMAIN nodes \ {root} :
           Cardinality({m \in DOMAIN nodes : nodes[m].lhs = n \/ nodes[m].rhs = n}) = 1
Show == (Gen /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist]))
=============================================================================
