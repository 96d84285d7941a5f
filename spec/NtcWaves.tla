------------------------------ MODULE NtcWaves ------------------------------
(* How the items of a work group agree on the waves of one block of pairs:    *)
(* atomic counters on the particles say who is first, everyone else queues up *)
(* and is placed one after another. Checked for every block of pairs and      *)
(* every interleaving of the atomic operations.                               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Items, NP
P == 0 .. NP - 1
VARIABLES pair, pc, flag, first, queue, wave
vars == <<pair, pc, flag, first, queue, wave>>
Init == /\ pair \in [Items -> {p \in P \X P : p[1] # p[2]}]
        /\ pc = [i \in Items |-> "i"] /\ flag = [x \in P |-> 0]
        /\ first = [i \in Items |-> TRUE] /\ queue = <<>>
        /\ wave = [i \in Items |-> -1]
Touch(i, n, from, to) ==
  /\ pc[i] = from /\ pc' = [pc EXCEPT ![i] = to]
  /\ LET x == pair[i][n] IN
     /\ flag' = [flag EXCEPT ![x] = @ + 1]
     /\ first' = [first EXCEPT ![i] = @ /\ flag[x] = 0]
  /\ UNCHANGED <<pair, queue, wave>>
Decide(i) ==
  /\ pc[i] = "d" /\ pc' = [pc EXCEPT ![i] = "b"]
  /\ IF first[i] THEN wave' = [wave EXCEPT ![i] = 0] /\ UNCHANGED queue
     ELSE queue' = Append(queue, i) /\ UNCHANGED wave
  /\ UNCHANGED <<pair, flag, first>>
Barrier == \A i \in Items : pc[i] = "b"
Max2(a, b) == IF a > b THEN a ELSE b
\* after the barrier the first ones mark their particles, those in the queue
\* are placed in turn
Marked == [x \in P |-> IF \E i \in Items : first[i] /\ x \in {pair[i][1], pair[i][2]}
                       THEN 1 ELSE 0]
RECURSIVE Place(_, _, _)
Place(q, f, w) ==
  IF q = <<>> THEN w
  ELSE LET i == Head(q)
           v == Max2(f[pair[i][1]], f[pair[i][2]])
       IN Place(Tail(q), [f EXCEPT ![pair[i][1]] = v + 1, ![pair[i][2]] = v + 1],
                [w EXCEPT ![i] = v])
Order == /\ Barrier /\ \E i \in Items : wave[i] = -1
         /\ wave' = Place(queue, Marked, wave)
         /\ UNCHANGED <<pair, pc, flag, first, queue>>
Next == Order \/ \E i \in Items : Touch(i, 1, "i", "j") \/ Touch(i, 2, "j", "d")
                                  \/ Decide(i)
Spec == Init /\ [][Next]_vars
Done == \A i \in Items : wave[i] >= 0
Share(i, k) == {pair[i][1], pair[i][2]} \cap {pair[k][1], pair[k][2]} # {}
NoConflict == \A i, k \in Items : i # k /\ wave[i] = wave[k] /\ wave[i] >= 0
                                  => ~Share(i, k)
NoGap == Done => \A i \in Items : \A w \in 0 .. wave[i] : \E k \in Items : wave[k] = w
=============================================================================
