------------------------------ MODULE CellsTrace ----------------------------
(* What is computed per cell of a group or a sub-group, and on arrays: exact  *)
(* results, nothing else is touched. Numbers are multiples of a quarter.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceIO
VARIABLES rows, cells, seen, l
vars == <<rows, cells, seen, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Keep == UNCHANGED <<rows, cells, seen>>
TInit == l = 1 /\ rows = <<>> /\ cells = <<>> /\ seen = <<>>
TEnd == Is("end") /\ Step /\ Keep
Ranks == DOMAIN rows
TWorld0 == /\ Is("init") /\ Step /\ rows' = E.rows /\ cells' = E.cells
           /\ seen' = [r \in DOMAIN E.rows |-> {}]
TWorld == Is("world") /\ Step /\ rows' = E.rows /\ UNCHANGED <<cells, seen>>
\* who is a member: 0 the group, 1 2 even, 3 all, 4 part of the even, 5 nobody
Even(p) == p.q % 2 = 0
In(kind, p) == CASE kind \in {0, 3} -> TRUE
                 [] kind \in {1, 2} -> Even(p)
                 [] kind = 4 -> Even(p) /\ p.id % 3 # 0
                 [] OTHER -> FALSE
InCell(r, kind, c) == SelectSeq(rows[r], LAMBDA p : p.cell = c /\ In(kind, p))
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
Op(k, a, b) == CASE k = 0 -> a + b [] k = 1 -> Least(a, b) [] OTHER -> Most(a, b)
Prop(p, n) == CASE n = "X" -> p.X [] n = "Y" -> p.Y [] n = "Q" -> <<4 * p.q>>
                [] n = "Z" -> p.Z [] OTHER -> p.W
\* start combined with the component of all of ms
Over(k, start, ms, n, c) == FoldLeft(LAMBDA a, p : Op(k, a, Prop(p, n)[c + 1]), start, ms)
TReduce ==
  /\ Is("reduce") /\ Step /\ Keep
  /\ Must(l, "the reduction over the members of each cell, nothing else",
       \A r \in Ranks : \A c \in 1 .. cells[r] :
         LET ms == InCell(r, E.kind, c - 1)
         IN \A i \in 1 .. E.nr * E.nc :
              E.after[r][c][i] =
                IF E.comp = -1 THEN Over(E.op, E.before[r][c][i], ms, E.name, i - 1)
                ELSE IF i = E.row * E.nc + E.col + 1
                THEN Over(E.op, E.before[r][c][i], ms, E.name, E.comp)
                ELSE E.before[r][c][i])
TNpart ==
  /\ Is("npart") /\ Step /\ Keep
  /\ Must(l, "the number of members in each cell",
       \A r \in Ranks : \A c \in 1 .. cells[r] : \A i \in 1 .. E.nr * E.nc :
         E.after[r][c][i] = IF i = E.row * E.nc + E.col + 1
                            THEN 4 * Len(InCell(r, E.kind, c - 1))
                            ELSE E.before[r][c][i])
Put(p, n, v) == CASE n = "X" -> [p EXCEPT !.X = v] [] n = "Y" -> [p EXCEPT !.Y = v]
                  [] n = "Z" -> [p EXCEPT !.Z = v] [] OTHER -> [p EXCEPT !.W = v]
TBroadcast ==
  /\ Is("broadcast") /\ Step /\ rows' = E.rows /\ UNCHANGED <<cells, seen>>
  /\ Must(l, "members have the value of their cell, nothing else changes",
       \A r \in Ranks :
         E.rows[r] = [i \in DOMAIN rows[r] |->
           LET p == rows[r][i]
           IN IF ~In(E.kind, p) THEN p
              ELSE Put(p, E.name, [Prop(p, E.name) EXCEPT ![E.comp + 1] = E.values[r][p.cell + 1]])])
\* from was copied, then increased by 1 for everybody, then the copy went to to
TCopy ==
  /\ Is("copy") /\ Step /\ rows' = E.rows /\ UNCHANGED <<cells, seen>>
  /\ Must(l, "members have what was copied",
       \A r \in Ranks :
         E.rows[r] = [i \in DOMAIN rows[r] |->
           LET p == rows[r][i]
               x == Prop(p, E.from)
               q == Put(p, E.from, [c \in DOMAIN x |-> x[c] + 4])
           IN IF In(E.kind, p) THEN Put(q, E.to, x) ELSE q])
TUnseen ==
  /\ Is("unseen") /\ Step /\ UNCHANGED <<rows, cells>>
  /\ LET has(r) == {Prop(rows[r][i], E.name)[E.comp + 1] :
                      i \in {k \in DOMAIN rows[r] : In(E.kind, rows[r][k])}}
         new(r) == has(r) \ seen[r]
     IN /\ Must(l, "the values that were not seen before",
             \A r \in Ranks : /\ {E.got[r][i] : i \in DOMAIN E.got[r]} = new(r)
                              /\ Len(E.got[r]) = Cardinality(new(r)))
        /\ seen' = [r \in Ranks |-> seen[r] \cup new(r)]
TElements ==
  /\ Is("elements") /\ Step /\ Keep
  /\ Must(l, "each element from the elements at its place",
       \A r \in Ranks : \A c \in 1 .. cells[r] : \A i \in 1 .. E.n :
         E.after[r][c][i] =
           FoldLeft(LAMBDA s, k :
                      LET m == E.args[r][k][c]
                      IN s + E.coefs[k] * (IF Len(m) = 1 THEN m[1] ELSE m[i]),
                    0, [k \in DOMAIN E.coefs |-> k]))
\* ------------------------------------------------------------------- arrays
Kept == Must(l, "nothing else is written", \A r \in Ranks : E.kept[r])
\* sums of what is before each of s, by going along
IsScan(s, d, start, len) ==
  /\ len > 0 => d[start + 1] = 0
  /\ \A i \in start + 2 .. start + len : d[i] = d[i - 1] + s[i - 1]
TScan == /\ Is("scan") /\ Step /\ Keep /\ Kept
         /\ Must(l, "each element is the sum of those before it",
              \A r \in Ranks : IsScan(E.in[r], E.out[r], 0, Len(E.in[r])))
Untouched == -220
TScans ==
  /\ Is("scans") /\ Step /\ Keep /\ Kept
  /\ LET A == DOMAIN E.sizes
         inside == UNION {E.offsets[a] + 1 .. E.offsets[a] + E.sizes[a] : a \in A}
     IN \A r \in Ranks :
        LET s == E.in[r]
            d == E.out[r]
        IN /\ Must(l, "what belongs to no array stays",
                \A i \in DOMAIN d : i \in inside \/ d[i] = Untouched)
           /\ \A a \in A :
                LET o == E.offsets[a]
                    n == E.sizes[a]
                IN IF E.how = 1
                   THEN Must(l, "each element is the sum up to it",
                          /\ n > 0 => d[o + 1] = s[o + 1]
                          /\ \A i \in o + 2 .. o + n : d[i] = d[i - 1] + s[i])
                   ELSE Must(l, "each element is the sum of those before it",
                          IsScan(s, d, o, n))
           /\ Must(l, "the sum of each array",
                \A a \in A : E.sums[r][a] =
                  IF E.how # 2 THEN -176
                  ELSE IF E.sizes[a] = 0 THEN 0
                  ELSE LET i == E.offsets[a] + E.sizes[a] IN d[i] + s[i])
TTranspose ==
  /\ Is("transpose") /\ Step /\ Keep /\ Kept
  /\ Must(l, "rows become columns",
       \A r \in Ranks : \A i \in 0 .. E.nr - 1 : \A k \in 0 .. E.nc - 1 :
         E.out[r][k * E.nr + i + 1] = E.in[r][i * E.nc + k + 1])
TTotal ==
  /\ Is("total") /\ Step /\ Keep /\ Kept
  /\ Must(l, "the reduction of all of them",
       \A r \in Ranks : E.out[r][1] =
         FoldLeft(LAMBDA a, x : Op(E.op, a, x), E.in[r][1], Tail(E.in[r])))
---------------------------------------------------------------------------
TNext == TWorld0 \/ TWorld \/ TReduce \/ TNpart \/ TBroadcast \/ TCopy \/ TUnseen
         \/ TElements \/ TScan \/ TScans \/ TTranspose \/ TTotal \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted ==
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
  /\ Trace[Len(Trace)].ev = "end"
=============================================================================
