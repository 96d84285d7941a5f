----------------------------- MODULE TrajTrace -----------------------------
(* A row is <<id, u, P, previous P, V, T0, T1, inside>>. hits: what the last   *)
(* intersection reported, for each rank a sequence of <<group, rows>>.        *)
EXTENDS Traj, TraceIO
VARIABLES world, st, hits, l
vars == <<world, st, hits, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
Step == l' = l + 1
Ranks == DOMAIN st
All(r) == FlattenSeq(st[r])
Sel(row, u) == u = -1 \/ row[2] = u
N == [d \in DOMAIN world.n |-> world.n[d] * world.sub]
\* the rows of the event and of the state belong together
Pairwise(P(_, _)) ==
  \A r \in Ranks : /\ Len(E.st[r]) = Len(st[r])
                   /\ \A c \in DOMAIN st[r] :
                        /\ Len(E.st[r][c]) = Len(st[r][c])
                        /\ \A i \in DOMAIN st[r][c] : P(st[r][c][i], E.st[r][c][i])
TInit == l = 1 /\ world = <<>> /\ st = <<>> /\ hits = <<>>
TEnd == Is("end") /\ Step /\ UNCHANGED <<world, st, hits>>
TWorld == Is("world") /\ Step /\ world' = E /\ st' = <<>> /\ hits' = <<>>
TSet == Is("set") /\ Step /\ st' = E.st /\ hits' = <<>> /\ UNCHANGED world
TPre == /\ Is("pre") /\ Step /\ st' = E.st /\ UNCHANGED <<world, hits>>
        /\ Must(l, "previous positions are stored",
             Pairwise(LAMBDA o, n : n = [o EXCEPT ![4] = IF Sel(o, E.u) THEN o[3] ELSE @]))
GroupOf(f) == {i \in DOMAIN world.groups : \E k \in DOMAIN world.groups[i][2] :
                                             world.groups[i][2][k] = f}
Named(i) == world.groups[i][1]
Row(r, id) == LET q == SelectSeq(All(r), LAMBDA x : x[1] = id) IN q[1]
\* the boundary elements of a face whose square contains a point
Along(f) == SelectSeq([d \in 1 .. world.nd |-> d], LAMBDA d : d # Axis(f))
NC(d) == world.n[d] \div world.grid
RECURSIVE Before(_)
ProdOf(f) == IF Len(Along(f)) = 1 THEN NC(Along(f)[1])
             ELSE NC(Along(f)[1]) * NC(Along(f)[2])
Before(f) == IF f = 0 THEN 0 ELSE Before(f - 1) + ProdOf(f - 1)
Squares(d, x) ==
  LET w == world.grid * world.sub
  IN {k \in 0 .. NC(d) - 1 : k * w - 1 <= x /\ x <= (k + 1) * w + 1}
Elements(f, p) ==
  IF Len(Along(f)) = 1
  THEN {Before(f) + k : k \in Squares(Along(f)[1], p[Along(f)[1]])}
  ELSE {Before(f) + k + NC(Along(f)[1]) * m :
          k \in Squares(Along(f)[1], p[Along(f)[1]]),
          m \in Squares(Along(f)[2], p[Along(f)[2]])}
\* a report <<id, point, normal, group, element>> is right for face f
Right(o, h, f, g) ==
  /\ Meets(N, o[4], o[3], f, h[2]) /\ h[3] = Inward(N, f)
  /\ h[4] = Named(g) /\ h[5] \in Elements(f, h[2])
TPost ==
  /\ Is("post") /\ Step /\ UNCHANGED world
  /\ hits' = E.hits /\ st' = E.st
  /\ Must(l, "finding intersections changes no particle",
          Pairwise(LAMBDA o, n : n = o))
  /\ \A r \in Ranks :
       /\ Must(l, "the reports describe the interaction", E.has[r])
       /\ Must(l, "one entry for each group",
               [i \in DOMAIN E.hits[r] |-> E.hits[r][i][1]] =
               [i \in DOMAIN E.hits[r] |-> E.hits[r][i][1]] /\
               {E.hits[r][i][1] : i \in DOMAIN E.hits[r]}
                 = {Named(i) : i \in DOMAIN world.groups}
               /\ Len(E.hits[r]) = Len(world.groups))
       /\ LET all == FlattenSeq([i \in DOMAIN E.hits[r] |->
                       [k \in DOMAIN E.hits[r][i][2] |-> E.hits[r][i][2][k]]])
              ids == {all[k][1] : k \in DOMAIN all}
              out == {o \in ToSet(All(r)) : Sel(o, E.u) /\ Leaves(N, o[3])}
          IN /\ Must(l, "a particle is reported at most once", Cardinality(ids) = Len(all))
             /\ Must(l, "only particles that leave are reported",
                     ids \subseteq {o[1] : o \in out})
             /\ Must(l, "particles that leave are reported",
                  \A o \in out : o[1] \notin ids =>
                     \E f \in First(N, o[4], o[3]) : GroupOf(f) = {})
       /\ \A i \in DOMAIN E.hits[r] : \A k \in DOMAIN E.hits[r][i][2] :
            LET h == E.hits[r][i][2][k]
                o == Row(r, h[1])
            IN Must(l, "the first face on the way, with its point, normal and element",
                 \E f \in First(N, o[4], o[3]) : \E g \in GroupOf(f) :
                    Named(g) = E.hits[r][i][1] /\ Right(o, h, f, g))
\* truncation and reflection of one group
TCut ==
  /\ Is("cut") /\ Step /\ UNCHANGED <<world, hits>> /\ st' = E.st
  /\ \A r \in Ranks :
       LET mine == FlattenSeq([i \in DOMAIN hits[r] |->
                     IF hits[r][i][1] = E.group THEN hits[r][i][2] ELSE <<>>])
           ids == {mine[k][1] : k \in DOMAIN mine}
           Hit(id) == mine[CHOOSE k \in DOMAIN mine : mine[k][1] = id]
           FaceOf(h) == CHOOSE f \in Faces(N) : Inward(N, f) = h[3]
           Was == All(r)
           Now == FlattenSeq(E.st[r])
       IN /\ Must(l, "the rows stay where they are", Len(Now) = Len(Was))
          /\ \A i \in DOMAIN Was :
               LET o == Was[i]
                   n == Now[i]
               IN IF o[1] \notin ids
                  THEN Must(l, "other particles are not changed", n = o)
                  ELSE LET h == Hit(o[1])
                           f == FaceOf(h)
                           neg == [d \in DOMAIN o[5] |->
                                     IF d = Axis(f) THEN -o[5][d] ELSE o[5][d]]
                       IN /\ Must(l, "nothing else changes",
                                  n[1] = o[1] /\ n[2] = o[2] /\ n[4] = o[4])
                          /\ Must(l, "the particle is put at the intersection",
                                  CutAt(n[3], h[2], o[4], E.reset, world.nd))
                          /\ Must(l, "the particle is inside again", n[8])
                          /\ Must(l, "the step is cut in time",
                               TimeCut(o[6], o[7], n[6], n[7],
                                       Num(N, o[4], f), Den(o[4], o[3], f)))
                          /\ Must(l, "the normal velocity is reversed",
                                  n[5] = IF E.reflect THEN neg ELSE o[5])
\* boundaries described by the user: point and normal follow from the id
Fifth(id) == (id + E.q) % 5
Normals(id) ==
  LET k == (id + E.q) % 4
  IN IF E.kd = 1 THEN IF (id + E.q) % 2 = 1 THEN <<25>> ELSE <<-25>>
     ELSE IF E.kd = 2 THEN <<<<15, 20>>, <<-20, 15>>, <<0, -25>>, <<25, 0>>>>[k + 1]
     ELSE <<<<15, 0, 20>>, <<0, -20, 15>>, <<0, 0, -25>>, <<25, 0, 0>>>>[k + 1]
RECURSIVE Dot(_, _, _)
Dot(x, y, d) == IF d = 0 THEN 0 ELSE x[d] * y[d] + Dot(x, y, d - 1)
TCustom ==
  /\ Is("custom") /\ Step /\ UNCHANGED <<world, hits>> /\ st' = E.st
  /\ Pairwise(LAMBDA o, n :
       IF ~Sel(o, E.u) THEN Must(l, "other particles are not changed", n = o)
       ELSE LET kd == E.kd
                t == Fifth(o[1])
                m == Normals(o[1])
                I == [d \in 1 .. kd |-> o[4][d] + (t * (o[3][d] - o[4][d])) \div 4]
                still == \A d \in 1 .. kd : o[3][d] = o[4][d]
                vn == Dot(o[5], m, kd) \div 25
            IN /\ Must(l, "nothing else changes",
                    /\ n[1] = o[1] /\ n[2] = o[2] /\ n[4] = o[4]
                    /\ \A d \in (kd + 1) .. world.nd : n[3][d] = o[3][d])
               /\ Must(l, "the particle is put at the intersection",
                       CutAt(n[3], I, o[4], 0, kd))
               /\ Must(l, "the step is cut in time",
                       TimeCut(o[6], o[7], n[6], n[7], IF still THEN 4 ELSE t, 4))
               /\ Must(l, "the velocity is reflected",
                    \A d \in DOMAIN o[5] : n[5][d] =
                      IF E.reflect /\ d <= kd
                      THEN o[5][d] - (2 * vn * m[d]) \div 25 ELSE o[5][d]))
TNext == TWorld \/ TSet \/ TPre \/ TPost \/ TCut \/ TCustom \/ TEnd
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
