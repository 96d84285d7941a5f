------------------------------ MODULE ScanBlocks -----------------------------
(* The exclusive scan of an array in blocks: every block is scanned on its    *)
(* own, then the totals of the blocks are scanned, then every block but the   *)
(* first is shifted. Tasks of one phase run in any order.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Locals, Units, Gen
VARIABLES n, local, units, src, dst, aux, phase, todo
vars == <<n, local, units, src, dst, aux, phase, todo>>
Least(a, b) == IF a < b THEN a ELSE b
Blocks == Least((n + local - 1) \div local, units)
\* the part of block b: sizes differ by at most one, the larger ones first
Start(b) == LET q == n \div Blocks
                m == n % Blocks
            IN b * q + Least(b, m)
Range1(b) == Start(b) + 1 .. Start(b + 1)
RECURSIVE Sum(_, _, _)
Sum(s, i, k) == IF i > k THEN 0 ELSE s[i] + Sum(s, i + 1, k)
Init == /\ n \in 0 .. MaxN /\ local \in Locals /\ units \in Units
        /\ src = [i \in 1 .. n |-> 2 ^ (i - 1)] /\ dst = [i \in 1 .. n |-> -1]
        /\ aux = <<>> /\ phase = IF n = 0 THEN "over" ELSE "scan"
        /\ todo = IF n = 0 THEN {} ELSE 0 .. Blocks - 1
Scan(b) == /\ phase = "scan" /\ b \in todo /\ todo' = todo \ {b}
           /\ dst' = [i \in 1 .. n |-> IF i \in Range1(b)
                                       THEN Sum(src, Start(b) + 1, i - 1) ELSE dst[i]]
           /\ UNCHANGED <<n, local, units, src, aux, phase>>
Totals == /\ phase = "scan" /\ todo = {}
          /\ LET t(b) == dst[Start(b + 1)] + src[Start(b + 1)]
                 ts == [b \in 1 .. Blocks |-> t(b - 1)]
             IN aux' = [b \in 1 .. Blocks |-> Sum(ts, 1, b - 1)]
          /\ phase' = IF Blocks < 2 THEN "over" ELSE "shift"
          /\ todo' = 1 .. Blocks - 1
          /\ UNCHANGED <<n, local, units, src, dst>>
Shift(b) == /\ phase = "shift" /\ b \in todo /\ todo' = todo \ {b}
            /\ dst' = [i \in 1 .. n |-> IF i \in Range1(b) THEN dst[i] + aux[b + 1] ELSE dst[i]]
            /\ phase' = IF todo = {b} THEN "over" ELSE phase
            /\ UNCHANGED <<n, local, units, src, aux>>
Next == Totals \/ \E b \in todo : Scan(b) \/ Shift(b)
Spec == Init /\ [][Next]_vars
Right == phase = "over" => \A i \in 1 .. n : dst[i] = Sum(src, 1, i - 1)
Parts == n > 0 => /\ \A i \in 1 .. n : Cardinality({b \in 0 .. Blocks - 1 : i \in Range1(b)}) = 1
                  /\ \A b \in 0 .. Blocks - 1 : Range1(b) # {}
Show == (Gen /\ phase = "over") => PrintT("BEHAVIOUR " \o ToJson([a |-> <<n, local, units>>]))
=============================================================================
