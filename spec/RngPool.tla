------------------------------- MODULE RngPool ------------------------------
(* A pool of samples from which the particles of a loop take the next one.    *)
(* Before a loop the taken ones at the front are replaced and the pool is     *)
(* extended to what the loop asks for; samples that were not taken stay.      *)
(* Sample numbers tell when they were produced. Every loop asks for a number  *)
(* and takes another one. With Gen, every sequence of Depth loops is printed  *)
(* and replayed in the real code.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Want, Take, Depth, Gen
VARIABLES pool, count, produced, given, hist, twice, short
vars == <<pool, count, produced, given, hist, twice, short>>
Init == /\ pool = <<>> /\ count = 0 /\ produced = 0 /\ given = {} /\ hist = <<>>
        /\ twice = FALSE /\ short = FALSE
Least(a, b) == IF a < b THEN a ELSE b
\* pool of loop with n samples
Filled(n) ==
  LET refill == Least(n, count)
      keep == IF refill < count THEN refill ELSE Len(pool)
      size == IF n > keep THEN n ELSE keep
      \* positions above what is kept are new ones
  IN [s |-> [i \in 1 .. size |->
               IF i > keep THEN produced + refill + (i - keep)
               ELSE IF i <= refill THEN produced + i ELSE pool[i]],
      p |-> produced + refill + (size - keep)]
Loop(n, t) ==
  /\ Len(hist) < Depth
  /\ LET f == Filled(n)
         got == {f.s[i] : i \in 1 .. Least(t, Len(f.s))}
     IN /\ pool' = f.s /\ produced' = f.p
        /\ count' = t
        /\ given' = given \cup got
        /\ twice' = (twice \/ got \cap given # {})
        /\ short' = (short \/ (t <= n /\ Cardinality(got) < t))
  /\ hist' = Append(hist, <<n, t>>)
Next == \E n \in Want, t \in Take : Loop(n, t)
Spec == Init /\ [][Next]_vars
Once == ~twice
Lasts == ~short
Produced == given \subseteq 1 .. produced
Show == (Gen /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([ops |-> hist]))
=============================================================================
