----------------------------- MODULE Ephemeral ------------------------------
(* Values attached temporarily to the particles of a sub-group. An attached   *)
(* property belongs to the members at the time it was added. It may be        *)
(* dropped when anything happened that the selection depends on, and must be  *)
(* when the members have changed; until then every member has its own values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unset == -7777777
\* rows: sequence of <<id, q, x>> of one rank
Even(q) == q % 2 = 0
Members(kind, rows) ==
  {rows[i][1] : i \in {k \in DOMAIN rows :
     CASE kind = 1 -> Even(rows[k][2])
       [] kind = 3 -> TRUE
       [] kind = 4 -> Even(rows[k][2]) /\ rows[k][1] % 3 # 0
       [] kind = 5 -> rows[k][2] > 1000}}
Fresh(n, members) ==
  [ncomp |-> n, vals |-> [i \in members |-> [c \in 1 .. n |-> Unset]],
   clean |-> TRUE]
Written(e, c, salt) ==
  [e EXCEPT !.vals = [i \in DOMAIN e.vals |->
                        [e.vals[i] EXCEPT ![c] = (i % 5000) + salt]]]
\* the changes that a selection of this kind can depend on
Affects(what, kind) == what = "group" \/ (what = "Q" /\ kind \in {1, 4, 5})
=============================================================================
